package soap

import (
	"context"
	"fmt"
	"net/http"
	"reflect"

	"aqwari.net/xml/internal/verifsim/scen"
	"aqwari.net/xml/internal/verifsim/simrt"
)

// C14: calls are cancelled, or time out, at each instant that matters to the
// exchange; servers fall silent.  Once the context is done, a call whose
// response is not complete returns an error, soon; and when a call returns,
// every response that it got is closed.
func init() { scen.Register("C14", 20e6, c14) }

const soon = 1000 * ms

func args0(c *call) reflect.Value { return reflect.ValueOf(c.args) }

func c14(t *scen.T) {
	s := simrt.S("c14")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	ops := pickClient(s)
	hooks := []int{0, 0, 1, 3, 2, 6, 9, 17, 19}[s.Choose(9)]
	custom := !s.Chance(1, 3)
	pkg := ops[0].pkg
	n := &network{calls: map[int]*exchange{}}
	client := newClient(pkg, n, hooks, custom)
	id := 0
	mk := func(kind int) *call {
		id++
		c := &call{op: ops[s.Choose(len(ops))], id: id, ids: map[int]bool{id: true}}
		c.drawArgs(s)
		c.drawPlan(s, kind)
		if c.plan.pause == 0 || s.Chance(1, 2) {
			c.plan.pause = int64(1+s.Choose(800)) * ms
		}
		if len(c.plan.chunks) == 0 || c.plan.chunks[0] < 20 {
			c.plan.chunks = []int{20 + s.Choose(200)}
		}
		c.plan.latency = int64(1+s.Choose(4000)) * ms
		t.Case(c.String(), c.plan.latency, c.plan.pause, string(c.plan.body))
		return c
	}
	type try struct {
		c      *call
		cancel int64 // -1: never; after the start
		how    int   // 0 cancel, 1 deadline, 2 parent cancelled, 3 deadline of the parent
		got    outcome
		x      *exchange
		open   int
		total  int64 // duration without cancellation; -1: would stall
		start  int64
	}
	// group makes the calls at the same time
	group := func(tries []*try) {
		var fns []func()
		for _, tr := range tries {
			tr := tr
			tr.x = tr.c.exchange()
			n.calls[tr.c.id] = tr.x
			root := context.WithValue(context.Background(), ctxKey{}, tr.c.id)
			started := simrt.SimNow()
			var ctx context.Context = root
			var canceller *simrt.Ctx
			switch {
			case tr.cancel < 0:
				if tr.how%2 == 1 {
					ctx = simrt.NewCtx(root, started+24*stall) // far away
				}
			case tr.how == 0:
				canceller = simrt.NewCtx(root, -1)
				ctx = canceller
			case tr.how == 1:
				ctx = simrt.NewCtx(root, started+tr.cancel)
			case tr.how == 2:
				canceller = simrt.NewCtx(root, -1)
				ctx = simrt.NewCtx(canceller, started+24*stall)
			case tr.how == 3:
				ctx = simrt.NewCtx(simrt.NewCtx(root, started+tr.cancel), -1)
			}
			if canceller != nil && tr.cancel == 0 && s.Chance(1, 2) {
				canceller.Cancel()
				canceller = nil
			}
			fns = append(fns, func() {
				tr.start = simrt.SimNow()
				tr.got = invoke(client, tr.c.op, ctx, tr.c.args)
				for _, b := range tr.x.bodies {
					if b.closed == 0 {
						tr.open++
					}
				}
			})
			if canceller != nil {
				fns = append(fns, func() {
					simrt.SleepFor(tr.cancel)
					canceller.Cancel()
				})
			}
		}
		sw := simrt.Switches()
		t.Sim(fns...)
		t.Nontrivial = t.Nontrivial || simrt.Switches() > sw && len(fns) > 1
		for _, tr := range tries {
			simrt.Note(scen.Hash(fmt.Sprint(tr.got.errText(), tr.got.at)))
			delete(n.calls, tr.c.id)
		}
	}
	check := func(tr *try) bool {
		what := fmt.Sprintf("%s (%s %s), headers after %d ms, %d ms between chunks of %v bytes, failing at %d, silent at %d", tr.c, pkg.Kind, pkg.Label,
			tr.c.plan.latency/ms, tr.c.plan.pause/ms, tr.c.plan.chunks, tr.c.plan.failAt, tr.c.plan.stallAt)
		dur := tr.got.at - tr.start
		switch {
		case tr.got.panik != "":
			t.Fail("panic", "%s: %s", what, tr.got)
		case tr.open > 0:
			t.Fail("response not closed", "%s: %d of %d response bodies are open when the call returns with %s", what, tr.open, len(tr.x.bodies), tr.got)
		case tr.x.requests > 1:
			t.Fail("number of requests", "%s: %d requests", what, tr.x.requests)
		case tr.cancel >= 0 && (tr.total < 0 || tr.cancel < tr.total) && dur > tr.cancel+soon:
			t.Fail("cancellation ignored", "%s: cancelled (%d) after %v, the call returned after %v with %s", what, tr.how, dms(tr.cancel), dms(dur), tr.got)
		case tr.cancel >= 0 && (tr.total < 0 || tr.cancel < tr.total) && tr.got.err == nil:
			t.Fail("success although cancelled", "%s: cancelled (%d) after %v, while the response took %v: %s", what, tr.how, dms(tr.cancel), dms(tr.total), tr.got)
		default:
			return false
		}
		return true
	}
	kinds := []int{kMirror, kClean, kFault, kNotSOAP, kCut, kConn}
	for round := 0; round < 3; round++ {
		c := mk(kinds[s.Choose(len(kinds))])
		ref := &try{c: c, cancel: -1, how: s.Choose(2), total: -1}
		group([]*try{ref})
		total := ref.got.at - ref.start
		t.Descf("%s: %v, %s", c, dms(total), ref.got)
		if check(ref) {
			return
		}
		// the instants of the exchange
		at := []int64{0, 1, c.plan.latency - 1, c.plan.latency, c.plan.latency + 1, total - 1, total, total + 1}
		for e := c.plan.latency; e < total && len(at) < 60; e += c.plan.pause {
			at = append(at, e, e+1, e+c.plan.pause/2)
		}
		var tries []*try
		for _, e := range at {
			if e < 0 {
				continue
			}
			tries = append(tries, &try{c: c, cancel: e, how: s.Choose(4), total: total})
		}
		t.Fault("cancellation")
		// silent servers
		for i := 0; i < 6; i++ {
			sc := *c
			id++
			sc.id = id
			sc.plan.connErr = nil
			if i == 0 {
				sc.plan.latency = stall
			} else if len(sc.plan.body) > 0 {
				sc.plan.failAt = -1
				sc.plan.stallAt = s.Choose(len(sc.plan.body))
				if end := envEnd(sc.plan.body); sc.plan.stallAt >= end {
					sc.plan.stallAt = end - 1
				}
				if sc.plan.stallAt < 0 {
					sc.plan.stallAt = 0
				}
			} else {
				continue
			}
			if c.kind == kNotSOAP && i > 0 {
				continue // it may be refused before all of it is read
			}
			t.Fault("silent server")
			tries = append(tries, &try{c: &sc, cancel: int64(s.Choose(30000)) * ms, how: s.Choose(4), total: -1})
			if c.kind == kFault || c.kind == kCut {
				tries[len(tries)-1].total = -1
			}
		}
		for i := 0; i < len(tries); {
			k := 1
			if s.Chance(1, 3) {
				k = 2 + s.Choose(3)
			}
			if i+k > len(tries) {
				k = len(tries) - i
			}
			g := tries[i : i+k]
			// a call has its own number within its group
			for j := range g {
				if j > 0 {
					cc := *g[j].c
					id++
					cc.id = id
					g[j].c = &cc
				}
			}
			// sometimes a call that nobody cancels is among them
			if s.Chance(1, 4) {
				cc := *c
				id++
				cc.id = id
				by := &try{c: &cc, cancel: -1, total: -1}
				group(append(append([]*try{}, g...), by))
				if by.got.vals != ref.got.vals || (by.got.err == nil) != (ref.got.err == nil) {
					t.Fail("another call's cancellation", "%s returns %s among calls that are cancelled, %s else", by.c, by.got, ref.got)
					return
				}
				if check(by) {
					return
				}
			} else {
				group(g)
			}
			for _, tr := range g {
				t.Count("cancelled calls", 1)
				if check(tr) {
					return
				}
			}
			i += k
		}
	}
	// whatever comes back, it is closed
	for i := 0; i < 10; i++ {
		c := mk([]int{kMirror, kClean, kFault, kNotSOAP, kCut, kNotSOAP}[s.Choose(6)])
		c.plan.status = []int{200, 500, 204, 302, 404, 401, 503, 202}[s.Choose(8)]
		if s.Chance(1, 4) {
			c.plan.header = http.Header{"Content-Type": {"text/html"}}
		}
		tr := &try{c: c, cancel: -1, how: s.Choose(2), total: -1}
		group([]*try{tr})
		if check(tr) {
			return
		}
		t.Fault(kindNames[c.kind])
	}
}

func dms(ns int64) string { return fmt.Sprintf("%.6fms", float64(ns)/float64(ms)) }

// envEnd is the position after the end tag of the envelope.
func envEnd(b []byte) int {
	for i := len(b); i >= 9; i-- {
		if string(b[i-9:i]) == "Envelope>" {
			return i
		}
	}
	return len(b)
}
