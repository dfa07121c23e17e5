package soap

import (
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"aqwari.net/xml/internal/verifsim/scen"
	"aqwari.net/xml/internal/verifsim/simrt"
)

// C12: tasks share one generated client and call its operations.  Each call
// sends one request, the one it sends alone, and reports the outcome of its
// own response.
func init() { scen.Register("C12", 20e6, c12) }

const (
	kClean = iota
	kMirror
	kFault
	kConn
	kCut
	kNotSOAP
	kDeadline
)

var kindNames = []string{"clean response", "clean response, mirrored", "SOAP fault", "transport error", "broken response", "response that is not SOAP", "deadline"}

type call struct {
	op       clientOp
	id       int
	args     []reflect.Value
	ids      map[int]bool // calls whose data may appear
	tokens   []string     // of the arguments, as far as the arguments encode
	kind     int
	fault    fault
	marker   string
	answer   []string // tokens of the response's values
	plan     plan
	deadline int64 // after the start, -1: none
	start    int64

	alone, got outcome
	ax, x      *exchange
}

func (c *call) String() string {
	var a []string
	for _, v := range c.args {
		a = append(a, show(v))
	}
	return fmt.Sprintf("call %d: %s(%s): %s", c.id, c.op.method, strings.Join(a, ", "), kindNames[c.kind])
}

// drawArgs fills the arguments of a call.
func (c *call) drawArgs(s *simrt.Stream) {
	f := &filler{s: s, id: c.id, small: !s.Chance(1, 10)}
	for i := 2; i < c.op.typ.NumIn(); i++ {
		v := reflect.New(c.op.typ.In(i)).Elem()
		f.fill(v, 0)
		c.args = append(c.args, v)
	}
	c.tokens = encodedTokens(c.args, f.tokens)
}

// encodedTokens returns the tokens that are in the encoding of the values.
func encodedTokens(vals []reflect.Value, tokens []string) (out []string) {
	var text []byte
	for _, v := range vals {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		if b, err := xml.Marshal(p.Interface()); err == nil {
			text = append(text, b...)
		} else if v.Kind() == reflect.Struct {
			// the parameters of an operation with many
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				b, _ := xml.Marshal(v.Field(i).Interface())
				text = append(text, b...)
			}
		}
	}
	for _, tok := range tokens {
		if bytes.Contains(text, []byte(tok)) {
			out = append(out, tok)
		}
	}
	return out
}

// drawPlan draws what becomes of the call.
func (c *call) drawPlan(s *simrt.Stream, kind int) {
	c.kind = kind
	c.deadline = -1
	p := &c.plan
	p.failAt, p.stallAt = -1, -1
	p.status = []int{200, 200, 200, 202, 500}[s.Choose(5)]
	p.latency = int64(s.Choose(3000)) * ms
	p.header = http.Header{"Content-Type": {"text/xml; charset=utf-8"}}
	f := &filler{s: s, id: c.id, n: 5000, small: true}
	switch kind {
	case kMirror, kClean:
		text := c.op.answer(f, kind == kMirror)
		p.body = []byte(envelope(s, text))
		for _, tok := range f.tokens {
			if strings.Contains(text, tok) {
				c.answer = append(c.answer, tok)
			}
		}
	case kFault:
		c.fault = fault{fmt.Sprintf("soap:k%dq1z", c.id), "text " + f.str()}
		before := ""
		if s.Chance(1, 4) {
			before = c.op.answer(f, s.Chance(1, 2))
		}
		p.status = []int{500, 500, 200, 400, 503}[s.Choose(5)]
		p.body = []byte(envelope(s, c.fault.write(s, before)))
	case kConn:
		c.marker = fmt.Sprintf("no route for k%dq2z", c.id)
		p.connErr = errors.New(c.marker)
	case kCut:
		p.body = []byte(envelope(s, c.op.answer(f, true)))
		p.failAt = s.Choose(len(p.body) - 1)
		p.failErr = netErrs[s.Choose(len(netErrs))]
	case kNotSOAP:
		p.status = []int{200, 404, 502, 503}[s.Choose(4)]
		p.body = []byte(notSOAP(s, f.str()))
	case kDeadline:
		p.body = []byte(envelope(s, c.op.answer(f, true)))
		p.stallAt = s.Choose(len(p.body) - 1)
		c.deadline = int64(1+s.Choose(4000)) * ms
	}
	drawDelivery(s, p)
}

func notSOAP(s *simrt.Stream, text string) string {
	t := esc(text)
	return []string{
		"",
		"<html><body><h1>" + t + "</h1></body></html>",
		`{"error": "x"}`,
		"Service unavailable",
		"<Envelope><Body/></Envelope>",
		`<x xmlns:s="` + envSpace + `"><s:Envelope><s:Body/></s:Envelope></x>`,
		`<?xml version="1.0"?>`,
		"<!DOCTYPE html><html lang=en><head><title>" + t + "</title></head></html>",
		" \n\t ",
		"\x00\x01\xff\xfe",
	}[s.Choose(10)]
}

// exec calls the operation on the network.
func (c *call) exec(client reflect.Value) outcome {
	ctx := context.WithValue(context.Background(), ctxKey{}, c.id)
	c.start = simrt.SimNow()
	if c.deadline >= 0 {
		ctx = simrt.NewCtx(ctx, c.start+c.deadline)
	}
	return invoke(client, c.op, ctx, c.args)
}

func (c *call) exchange() *exchange { return &exchange{id: c.id, plan: c.plan, tokens: c.tokens} }

const knownPayload = "payload of the response not decoded"

// judge says what is wrong with the exchange and the outcome of a call.
func (c *call) judge(x *exchange, got outcome, hooks int) (class, msg string) {
	op := c.op.op
	addr, action := op.Address, op.Action
	if hooks&16 != 0 {
		// what the hook makes of its request
		if u, err := url.Parse(addr); err == nil {
			if u.RawQuery != "" {
				u.RawQuery += "&"
			}
			u.RawQuery += hookQuery
			addr = u.String()
		}
		action += hookAction
	}
	switch {
	case got.panik != "" || !got.done:
		return "panic", got.String()
	case x.requests != 1:
		return "number of requests", fmt.Sprintf("%d requests, not one (outcome: %s)", x.requests, got)
	case x.method != op.Method:
		return "method", fmt.Sprintf("method %s, not %s", x.method, op.Method)
	case !sameURL(x.url, addr):
		return "address", fmt.Sprintf("sent to %s, not %s", x.url, addr)
	case len(x.action) != 1 || strings.ReplaceAll(x.action[0], `"`, "") != strings.ReplaceAll(action, `"`, ""):
		return "action header", fmt.Sprintf("SOAPAction %q, not %q", x.action, action)
	case hooks&16 != 0 && x.traces != 1:
		return "request hook", fmt.Sprintf("%d header lines of the hook, not one", x.traces)
	case hooks&1 != 0 && x.hook != x.action[0] && x.hook+hookAction != x.action[0]:
		return "request hook", fmt.Sprintf("the request does not have what the hook added to it (%q)", x.hook)
	}
	if op.Method == "POST" {
		root := scen.ParseNode(x.body)
		if root == nil || root.Name.Local != "Envelope" || root.Name.Space != envSpace || root.Kid("Body") == nil {
			return "request body", fmt.Sprintf("the body is not a SOAP envelope: %s", x.body)
		}
		all := strings.Join(root.Leaves(nil), "\n")
		for _, tok := range c.tokens {
			if !strings.Contains(all, tok) {
				return "arguments", fmt.Sprintf("argument %s is not in the request %s", tok, x.body)
			}
		}
	}
	if tok := foreign(string(x.body), c.ids); tok != "" {
		return "data of another call", fmt.Sprintf("%s is in the request %s", tok, x.body)
	}
	ids := map[int]bool{c.id: true}
	if tok := foreign(got.vals+" "+got.errText(), ids); tok != "" {
		return "data of another call", fmt.Sprintf("%s is in the outcome: %s", tok, got)
	}
	switch c.kind {
	case kClean, kMirror:
		if got.err != nil {
			return "outcome", fmt.Sprintf("%s for a response without fault: %s", got, c.plan.body)
		}
		missing := ""
		for _, tok := range c.answer {
			if !strings.Contains(got.vals, tok) {
				missing = tok
			}
		}
		switch {
		case missing == "":
		case got.vals != zeroText(c.op.typeOuts()):
			return "outcome", fmt.Sprintf("value %s of the response %s is not in the result %s", missing, c.plan.body, got)
		case c.kind == kMirror && op.Name == "Message":
			return "outcome", fmt.Sprintf("the result is %s, without %s, for the response %s", got, missing, c.plan.body)
		default:
			return knownPayload, fmt.Sprintf("%s returns zero values for the response %s", c.op, c.plan.body)
		}
	case kFault:
		if got.err == nil || !strings.Contains(got.errText(), c.fault.code) || !strings.Contains(got.errText(), c.fault.text) {
			return "outcome", fmt.Sprintf("%s for the fault %s", got, c.plan.body)
		}
	case kConn:
		if got.err == nil || !strings.Contains(got.errText(), c.marker) {
			return "outcome", fmt.Sprintf("%s for the transport error %q", got, c.marker)
		}
	case kCut, kNotSOAP, kDeadline:
		if got.err == nil {
			return "outcome", fmt.Sprintf("%s for a %s: %s", got, kindNames[c.kind], c.plan.body)
		}
	}
	return "", ""
}

func (o clientOp) typeOuts() (out []reflect.Type) {
	for i := 0; i < o.typ.NumOut()-1; i++ {
		out = append(out, o.typ.Out(i))
	}
	return out
}

func sameURL(a, b string) bool {
	u, err := url.Parse(b)
	return a == b || err == nil && a == u.String()
}

func c12(t *scen.T) {
	s := simrt.S("c12")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	ops := pickClient(s)
	pkg := ops[0].pkg
	hooks := []int{0, 0, 1, 3, 2, 6, 9, 17, 19}[s.Choose(9)]
	custom := !s.Chance(1, 3)
	t.Case(pkg.Kind, pkg.Label, hooks, custom)
	nt := 2 + s.Choose(4)
	tasks := make([][]*call, nt)
	var all []*call
	same := s.Choose(len(ops))
	for i := range tasks {
		for k := 0; k <= s.Choose(3); k++ {
			c := &call{op: ops[s.Choose(len(ops))], id: len(all) + 1, ids: map[int]bool{}}
			if s.Chance(1, 2) {
				c.op = ops[same]
			}
			c.ids[c.id] = true
			if len(all) > 0 && s.Chance(1, 5) {
				// callers share the values
				if o := all[s.Choose(len(all))]; o.op.method == c.op.method {
					c.args, c.tokens = o.args, o.tokens
					for id := range o.ids {
						c.ids[id] = true
					}
				}
			}
			if c.args == nil {
				c.drawArgs(s)
			}
			c.drawPlan(s, []int{kMirror, kClean, kFault, kMirror, kFault, kConn, kCut, kNotSOAP, kDeadline}[s.Choose(9)])
			t.Case(c.String(), c.plan.latency, string(c.plan.body))
			tasks[i] = append(tasks[i], c)
			all = append(all, c)
			t.Fault(kindNames[c.kind])
		}
	}
	t.Descf("%s %s: hooks %d, own HTTP client %v", pkg.Kind, pkg.Label, hooks, custom)
	var before []string
	for _, c := range all {
		before = append(before, c.String())
	}
	// each alone, on a client of its own
	var fns []func()
	for _, c := range all {
		c := c
		c.ax = c.exchange()
		fns = append(fns, func() {
			n := &network{calls: map[int]*exchange{c.id: c.ax}}
			c.alone = c.exec(newClient(pkg, n, hooks, true))
		})
	}
	t.Sim(func() {
		for _, f := range fns {
			f()
		}
	})
	var known string
	report := func(where string, c *call, x *exchange, got outcome) bool {
		class, msg := c.judge(x, got, hooks)
		if class == knownPayload {
			known = msg
			return false
		}
		if class != "" {
			t.Fail(class, "%s of %s %s: %s", c, pkg.Kind, where, msg)
		}
		return class != ""
	}
	for _, c := range all {
		simrt.Note(scen.Hash(c.alone.vals + c.alone.errText()))
		if report("alone", c, c.ax, c.alone) {
			return
		}
	}
	if s.Chance(1, 2) {
		t.Restart()
	}
	n := &network{calls: map[int]*exchange{}}
	for _, c := range all {
		c.x = c.exchange()
		n.calls[c.id] = c.x
	}
	client := newClient(pkg, n, hooks, custom)
	fns = nil
	for _, calls := range tasks {
		calls := calls
		fns = append(fns, func() {
			for _, c := range calls {
				c.got = c.exec(client)
			}
		})
	}
	sw := simrt.Switches()
	simrt.SwitchRate([]int{4, 32, 128, 400}[s.Choose(4)])
	if s.Chance(1, 3) && simrt.Focus("/gen/"+pkg.Name, s.Chance(1, 4), s.Choose(1<<16)) {
		t.Count("runs with a focus", 1)
	}
	t.Sim(fns...)
	simrt.Unfocus()
	simrt.SwitchRate(64)
	t.Nontrivial = simrt.Switches() > sw
	t.Count("concurrent calls", int64(len(all)))
	for i, c := range all {
		t.Descf("  %s\n    request %s\n    %s", before[i], scen.Clip(c.x.body), c.got)
		simrt.Note(scen.Hash(c.got.vals + c.got.errText()))
		if report("among others", c, c.x, c.got) {
			return
		}
		if !bytes.Equal(c.x.body, c.ax.body) {
			t.Fail("request differs", "%s sends\n%s\nalone, but among others\n%s", c, c.ax.body, c.x.body)
			return
		}
		if c.got.vals != c.alone.vals || (c.got.err == nil) != (c.alone.err == nil) {
			t.Fail("outcome differs", "%s: alone %s, among others %s", c, c.alone, c.got)
			return
		}
		if b := c.String(); b != before[i] {
			t.Fail("arguments modified", "%s became %s", before[i], b)
			return
		}
	}
	if len(n.lost) > 0 {
		t.Fail("number of requests", "a request that belongs to no call: %s", n.lost[0])
		return
	}
	if known != "" {
		t.Fail(knownPayload, "%s", known)
	}
}
