package soap

import (
	"fmt"
	"net/http"
	"strings"

	"aqwari.net/xml/internal/verifsim/scen"
	"aqwari.net/xml/internal/verifsim/simrt"
)

// C13: one client makes a long series of exchanges, most of which fail: the
// response is cut off or fails at each position, is a fault, or is no SOAP.
// Only a complete envelope without fault may be reported as success, however
// the network splits and delays it.
func init() { scen.Register("C13", 40e6, c13) }

func c13(t *scen.T) {
	s := simrt.S("c13")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	ops := pickClient(s)
	op := ops[s.Choose(len(ops))]
	hooks := []int{0, 0, 1, 3, 2, 6, 9, 17, 19}[s.Choose(9)]
	custom := !s.Chance(1, 3)
	n := &network{calls: map[int]*exchange{}}
	client := newClient(op.pkg, n, hooks, custom)
	proto := &call{op: op, id: 1}
	proto.drawArgs(s)
	t.Case(op.String(), show(args0(proto)))
	id := 1
	// do makes an exchange with the response; want is what must come of it
	do := func(p plan) (outcome, *exchange) {
		id++
		c := &call{op: op, id: id, args: proto.args, plan: p, deadline: -1}
		x := c.exchange()
		n.calls[id] = x
		got := c.exec(client)
		simrt.Note(scen.Hash(got.vals + got.errText()))
		delete(n.calls, id)
		return got, x
	}
	t.Descf("%s", op)
	failed := func(p plan, got outcome, class, why string) bool {
		switch {
		case got.panik != "":
			t.Fail("panic", "%s: %s: %s", op, why, got)
		case got.err == nil:
			t.Fail(class, "%s reports %s for %s (status %d): %s", op, got, why, p.status, show13(p))
		default:
			return false
		}
		return true
	}
	base := func(body string) plan {
		p := plan{failAt: -1, stallAt: -1, status: 200, body: []byte(body), header: http.Header{"Content-Type": {"text/xml"}}}
		return p
	}
	bad := false
	t.Sim(func() {
		for round := 0; round < 2 && !bad; round++ {
			f := &filler{s: s, id: 1, n: 5000, small: true}
			mirrored := s.Chance(2, 3)
			body := envelope(s, op.answer(f, mirrored))
			if s.Chance(1, 5) {
				body += []string{"\n", "<!-- end -->", " \n\n "}[s.Choose(3)]
			}
			isFault := s.Chance(1, 3)
			var fl fault
			if isFault {
				fl = fault{"soap:Server", "reason " + f.str()}
				before := ""
				if s.Chance(1, 3) {
					before = op.answer(f, mirrored)
				}
				body = envelope(s, fl.write(s, before))
			}
			t.Case(body)
			end := strings.LastIndex(body, "Envelope>") + len("Envelope>")
			whole, _ := do(base(body))
			t.Descf("  response %s\n    %s", scen.Clip([]byte(body)), whole)
			checkFault := func(p plan, got outcome, why string) bool {
				if failed(p, got, "fault reported as success", why) {
					return true
				}
				if !strings.Contains(got.errText(), fl.code) || !strings.Contains(got.errText(), fl.text) {
					t.Fail("text of the fault", "%s: %s: error %q has not the code %q and the text %q of %s", op, why, got.errText(), fl.code, fl.text, p.body)
					return true
				}
				return false
			}
			if isFault {
				if bad = checkFault(base(body), whole, "a fault"); bad {
					return
				}
			} else if whole.err == nil {
				t.Nontrivial = true
			}
			// any chunking, delay and status
			for i := 0; i < 10; i++ {
				p := base(body)
				drawDelivery(s, &p)
				p.latency = int64(s.Choose(5000)) * ms
				p.status = []int{200, 500, 202, 400, 404, 503, 302}[s.Choose(7)]
				got, _ := do(p)
				t.Fault("response in pieces")
				if isFault {
					if bad = checkFault(p, got, "a fault in pieces"); bad {
						return
					}
				}
				if p.status == 200 && ((got.err == nil) != (whole.err == nil) || got.err == nil && got.vals != whole.vals) {
					t.Fail("delivery changes the outcome", "%s: %s in one piece, %s in pieces %v, delays of %d ms, for %s", op, whole, got, p.chunks, p.pause/ms, body)
					bad = true
					return
				}
			}
			// cut off and failing at each position
			var at []int
			if len(body) <= 420 {
				for k := 0; k <= len(body); k++ {
					at = append(at, k)
				}
			} else {
				for k := 0; k <= len(body); k++ {
					if k == len(body) || k > 0 && (body[k-1] == '>' || body[k] == '<') {
						at = append(at, k)
					}
				}
				for i := 0; i < 60; i++ {
					at = append(at, s.Choose(len(body)))
				}
				for i := range at {
					j := s.Choose(i + 1)
					at[i], at[j] = at[j], at[i]
				}
				if len(at) > 420 {
					at = at[:420]
				}
			}
			for i, k := range at {
				p := base(body)
				mode := s.Choose(3)
				if mode == 0 {
					p.body = p.body[:k]
				} else {
					p.failAt = k
					p.failErr = netErrs[s.Choose(len(netErrs))]
					p.withEOF = mode == 2
				}
				if s.Chance(1, 4) {
					p.chunks = []int{1 + s.Choose(50)}
				}
				if s.Chance(1, 6) {
					p.zeroReads = true
				}
				if s.Chance(1, 8) {
					p.status = []int{500, 202, 404}[s.Choose(3)]
				}
				got, _ := do(p)
				t.Fault([]string{"response cut off", "read of the response fails", "read of the response fails with data"}[mode])
				if k < end {
					if bad = failed(p, got, "broken response reported as success", fmt.Sprintf("a response that breaks off after %d of %d bytes", k, len(body))); bad {
						return
					}
				} else if got.err == nil && (isFault || got.vals != whole.vals) {
					t.Fail("broken response reported as success", "%s: %s for a connection that fails after the response, %s else: %s", op, got, whole, body)
					bad = true
					return
				}
				if i%40 == 39 {
					// the client is not impressed by what failed before
					got, _ := do(base(body))
					if (got.err == nil) != (whole.err == nil) || got.vals != whole.vals {
						t.Fail("earlier failures change the outcome", "%s: %s at first, %s after failures, for %s", op, whole, got, body)
						bad = true
						return
					}
				}
			}
		}
		// long responses
		if !bad && s.Chance(1, 5) {
			f := &filler{s: s, id: 1, n: 7000, small: true}
			body := envelope(s, op.answer(f, s.Chance(2, 3)))
			var fl fault
			isFault := s.Chance(1, 3)
			if isFault {
				fl = fault{"soap:Server", f.str() + " failed"}
				body = envelope(s, fl.write(s, ""))
			}
			whole, _ := do(base(body))
			n := []int{4000, 66000, 66000, 270000, 1100000}[s.Choose(5)]
			pad := []string{strings.Repeat(" ", n), "<!--" + strings.Repeat("long ", n/5) + "-->", strings.Repeat("\n<!-- -->", n/9)}[s.Choose(3)]
			at := strings.LastIndex(body, "</")
			if s.Chance(1, 2) { // at the end of the Body
				at = strings.LastIndex(body[:at], "</")
			} else if s.Chance(1, 2) { // behind the envelope's start tag
				at = strings.Index(body, envSpace) + len(envSpace) + 2
			}
			long := body[:at] + pad + body[at:]
			t.Fault("long response")
			t.Case(long)
			p := base(long)
			drawDelivery(s, &p)
			p.chunks = []int{512, 1400, 4096, 65536}[s.Choose(4):][:1]
			got, _ := do(p)
			what := fmt.Sprintf("a response with %d bytes of blanks or comments", n)
			if isFault {
				if bad = failed(p, got, "fault reported as success", what); !bad && got.errText() != whole.errText() {
					t.Fail("text of the fault", "%s: %s: error %q, %q without them", op, what, got.errText(), whole.errText())
					bad = true
				}
			} else if (got.err == nil) != (whole.err == nil) || got.vals != whole.vals {
				t.Fail("delivery changes the outcome", "%s: %s: %s, %s without them: %s", op, what, got, whole, body)
				bad = true
			}
			for i := 0; i < 3 && !bad; i++ {
				p := base(long)
				k := []int{4096, 32768, 65536, len(long) - 1, len(long) - 20, s.Choose(len(long))}[s.Choose(6)]
				if k >= len(long)-1 {
					k = len(long) - 1
				}
				if s.Chance(1, 2) {
					p.body = p.body[:k]
				} else {
					p.failAt = k
					p.failErr = netErrs[s.Choose(len(netErrs))]
				}
				if k >= strings.LastIndex(long, ">")+1 {
					continue
				}
				got, _ := do(p)
				bad = failed(p, got, "broken response reported as success", fmt.Sprintf("a long response that breaks off after %d of %d bytes", k, len(long)))
			}
		}
		// no response at all, and things that are no envelope
		for i := 0; i < 8 && !bad; i++ {
			p := base("")
			p.connErr = netErrs[s.Choose(len(netErrs))]
			p.latency = int64(s.Choose(100)) * ms
			got, _ := do(p)
			t.Fault("transport error")
			bad = failed(p, got, "transport error reported as success", "a transport error")
		}
		for i := 0; i < 24 && !bad; i++ {
			p := base(notSOAP(s, "text"))
			p.status = []int{200, 404, 502, 503, 204, 302, 401}[s.Choose(7)]
			drawDelivery(s, &p)
			got, _ := do(p)
			t.Fault("response that is not SOAP")
			bad = failed(p, got, "other response reported as success", "a response that is not SOAP")
		}
		f := &filler{s: s, id: 1, n: 9000, small: true}
		for i := 0; i < 12 && !bad; i++ {
			fl := fault{[]string{"soap:Client", "Server", "a:B", "", "soap:Server.Busy"}[s.Choose(5)], []string{f.str(), "", "<bad & ugly>", "日本", "no such thing"}[s.Choose(5)]}
			before := ""
			if s.Chance(1, 3) {
				before = op.answer(f, s.Chance(1, 2))
			}
			p := base(envelope(s, fl.write(s, before)))
			if i == 0 {
				p = base(envelope(s, `<Fault xmlns="`+envSpace+`"/>`))
				fl = fault{}
			}
			p.status = []int{500, 200, 202, 400, 503}[s.Choose(5)]
			drawDelivery(s, &p)
			got, _ := do(p)
			t.Fault("SOAP fault")
			if bad = failed(p, got, "fault reported as success", "a fault"); !bad && (!strings.Contains(got.errText(), fl.code) || !strings.Contains(got.errText(), fl.text)) {
				t.Fail("text of the fault", "%s: error %q has not the code %q and the text %q of %s", op, got.errText(), fl.code, fl.text, p.body)
				bad = true
			}
		}
	})
	t.Count("exchanges", int64(id-1))
}

func show13(p plan) string {
	b := p.body
	if p.failAt >= 0 && p.failAt < len(b) {
		b = b[:p.failAt]
	}
	s := scen.Clip(b)
	if p.failAt >= 0 {
		s += fmt.Sprintf(" then %v", p.failErr)
	}
	if p.connErr != nil {
		s = p.connErr.Error()
	}
	return s
}
