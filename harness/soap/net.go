package soap

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"syscall"
	"time"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// The simulated network: an http.RoundTripper whose every delay, loss and
// failure is planned before the tasks start.

const (
	ms    = int64(time.Millisecond)
	stall = int64(time.Hour) // how long a silent server keeps a connection open
)

// plan says what the network does with the call.
type plan struct {
	connErr   error // the exchange fails before a response
	latency   int64 // until the response headers
	status    int
	header    http.Header
	body      []byte
	failAt    int // position at which reading fails; -1: never
	failErr   error
	stallAt   int   // position at which the server falls silent; -1: never
	chunks    []int // sizes of reads; the last one repeats; none: as asked for
	pause     int64 // between chunks
	withEOF   bool  // the last bytes come together with io.EOF or the failure
	zeroReads bool  // some reads return nothing
	lenKnown  bool
}

// exchange is a call's plan and what the transport saw of it.
type exchange struct {
	id     int
	plan   plan
	tokens []string

	requests int
	method   string
	url      string
	action   []string
	hook     string
	traces   int
	ctype    string
	body     []byte
	reqCtx   context.Context
	bodies   []*respBody
}

type ctxKey struct{}

// network identifies calls by their context, else by their tokens.
type network struct {
	calls map[int]*exchange
	lost  []string // requests that belong to no call
}

var errNoCall = errors.New("request of no call")

func (n *network) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		var rerr error
		buf := make([]byte, 97)
		for {
			k, err := req.Body.Read(buf)
			body = append(body, buf[:k]...)
			if err != nil {
				if err != io.EOF {
					rerr = err
				}
				break
			}
		}
		req.Body.Close()
		if rerr != nil {
			return nil, rerr
		}
	}
	x := n.find(req, body)
	if x == nil {
		n.lost = append(n.lost, fmt.Sprintf("%s %s %s", req.Method, req.URL, body))
		return nil, errNoCall
	}
	x.requests++
	x.method, x.url, x.body, x.reqCtx = req.Method, req.URL.String(), body, req.Context()
	x.action = append([]string(nil), req.Header["Soapaction"]...)
	x.hook = req.Header.Get("X-Hook")
	x.traces = len(req.Header["X-Trace"])
	p := &x.plan
	if !wait(req.Context(), simrt.SimNow()+p.latency) {
		return nil, req.Context().Err()
	}
	if p.connErr != nil {
		return nil, p.connErr
	}
	rb := &respBody{x: x, ctx: req.Context()}
	x.bodies = append(x.bodies, rb)
	h := p.header
	if h == nil {
		h = http.Header{}
	}
	h = h.Clone()
	h.Set("Date", "Thu, 01 Jan 1970 00:00:00 GMT")
	n1 := int64(-1)
	if p.lenKnown {
		n1 = int64(len(p.body))
		h.Set("Content-Length", fmt.Sprint(n1))
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", p.status, http.StatusText(p.status)), StatusCode: p.status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: rb, ContentLength: n1, Request: req,
	}, nil
}

func (n *network) find(req *http.Request, body []byte) *exchange {
	if id, ok := req.Context().Value(ctxKey{}).(int); ok {
		return n.calls[id]
	}
	// the context was lost on the way
	var found *exchange
	for _, x := range n.calls {
		for _, tok := range x.tokens {
			if bytes.Contains(body, []byte(tok)) || strings.Contains(req.URL.String(), tok) {
				if found == nil || x.id < found.id {
					found = x
				}
			}
		}
	}
	if found == nil && len(n.calls) == 1 {
		for _, x := range n.calls {
			return x
		}
	}
	return found
}

// wait passes simulated time until the context is cancelled (false) or the
// time has come.
func wait(ctx context.Context, until int64) bool {
	if ctx.Err() != nil {
		return false
	}
	if until <= simrt.SimNow() {
		return true
	}
	at := until
	if d, ok := ctx.Deadline(); ok {
		if dn := simrt.At(d); dn < at {
			at = dn
		}
	}
	simrt.WaitFor(at, func() bool { return ctx.Err() != nil })
	return ctx.Err() == nil
}

// respBody is the body of a response on its way.
type respBody struct {
	x      *exchange
	ctx    context.Context
	pos    int
	reads  int
	chunk  int
	closed int
	late   bool
	done   bool
}

var errClosed = errors.New("http: read on closed response body")

func (b *respBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.late = true
		return 0, errClosed
	}
	pl := &b.x.plan
	b.reads++
	if b.ctx.Err() != nil {
		return 0, b.ctx.Err()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if pl.zeroReads && b.reads%3 == 1 {
		return 0, nil
	}
	end := len(pl.body)
	var fin error = io.EOF
	if pl.failAt >= 0 && pl.failAt <= end {
		end, fin = pl.failAt, pl.failErr
	}
	silent := false
	if pl.stallAt >= 0 && pl.stallAt < end {
		end, silent = pl.stallAt, true
	}
	if b.pos >= end && silent {
		if !wait(b.ctx, simrt.SimNow()+stall) {
			return 0, b.ctx.Err()
		}
		return 0, errors.New("read: connection timed out")
	}
	if pl.pause > 0 && b.reads > 1 {
		if !wait(b.ctx, simrt.SimNow()+pl.pause) {
			return 0, b.ctx.Err()
		}
	}
	if b.pos >= end {
		b.done = true
		return 0, fin
	}
	n := len(p)
	if len(pl.chunks) > 0 {
		c := pl.chunks[min(b.chunk, len(pl.chunks)-1)]
		b.chunk++
		if c < n {
			n = c
		}
	}
	if n > end-b.pos {
		n = end - b.pos
	}
	copy(p, pl.body[b.pos:b.pos+n])
	b.pos += n
	if b.pos == end && pl.withEOF && !silent {
		b.done = true
		return n, fin
	}
	return n, nil
}

func (b *respBody) Close() error {
	b.closed++
	return nil
}

// hooked is the body of a response that a hook replaced.
type hooked struct{ io.ReadCloser }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var netErrs = []error{io.ErrUnexpectedEOF, syscall.ECONNRESET, errors.New("http2: stream closed"), syscall.EPIPE}

// drawDelivery draws how the network splits and delays the response.
func drawDelivery(s *simrt.Stream, p *plan) {
	switch s.Choose(6) {
	case 1:
		p.chunks = []int{1}
	case 2:
		p.chunks = []int{1 + s.Choose(40)}
	case 3:
		for i := 0; i < 12; i++ {
			p.chunks = append(p.chunks, 1+s.Choose(60))
		}
	case 4:
		p.chunks = []int{s.Choose(len(p.body)+1) + 1}
	case 5:
		p.chunks = []int{7}
		p.zeroReads = true
	}
	p.withEOF = s.Chance(1, 3)
	p.lenKnown = s.Chance(1, 2)
	drawHeader(s, p)
	if s.Chance(1, 3) {
		p.pause = int64(s.Choose(2000)) * ms
	}
}

// drawHeader adds what servers and proxies put into the header of a response.
// Nothing of it says that a response is a good or a bad one.
func drawHeader(s *simrt.Stream, p *plan) {
	h := p.header.Clone()
	if h == nil {
		h = http.Header{}
	}
	p.header = h
	if s.Chance(1, 3) {
		switch s.Choose(3) {
		case 0:
			h.Set("Content-Type", "application/soap+xml; charset=utf-8")
		case 1:
			h.Set("Content-Type", "text/xml")
		case 2:
			h.Del("Content-Type")
		}
	}
	if s.Chance(1, 4) || p.status == 503 && s.Chance(3, 4) {
		h.Set("Retry-After", []string{"1", "3", "30", "120", "Thu, 01 Jan 2037 00:00:00 GMT", "0"}[s.Choose(6)])
	}
	if s.Chance(1, 6) {
		h.Set("Connection", []string{"close", "keep-alive"}[s.Choose(2)])
	}
	if s.Chance(1, 6) {
		h.Set("Keep-Alive", "timeout=5, max=100")
	}
	if s.Chance(1, 6) {
		h.Set("Warning", `110 proxy "response is stale"`)
	}
	if s.Chance(1, 6) {
		h.Set("Cache-Control", []string{"no-store", "max-age=600", "private"}[s.Choose(3)])
		h.Set("Etag", `"v1"`)
	}
	if s.Chance(1, 6) {
		h.Set("Set-Cookie", "session=abc; Path=/")
	}
	if s.Chance(1, 6) {
		h.Set("X-Request-Timeout", "5")
	}
}
