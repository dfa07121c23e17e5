package scen

import (
	"fmt"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xmltree"
)

// C05: tasks share one or two parsed trees and only read them.  Every call
// must return what it returns alone (computed on trees of its own), the trees
// stay as they were, and the race detector, which does not see the simulator's
// hand-overs, stays quiet.
func init() { register("C05", 60e6, c05) }

func c05(t *T) {
	s := simrt.S("c05")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	var docs [][]byte
	n := 1 + s.Choose(2)
	for i := 0; i < n; i++ {
		var d []byte
		switch s.Choose(5) {
		case 0:
			set := genXSD("xsd", genOpts{maxDocs: 1, maxTypes: 6, soap: true})
			d = set.Docs[0].Data
		case 1:
			d = t.corpusSet("corpus", 6000, nil).Docs[0].Data
		default:
			d = genXML(fmt.Sprintf("xml%d", i), 20)
		}
		if s.Chance(1, 6) && ascii(d) {
			d = recode(s, d)
		}
		docs = append(docs, d)
		t.Case(string(d))
		t.Descf("document %s", clip(d))
	}
	parse := func() []*xmltree.Element {
		var out []*xmltree.Element
		for _, d := range docs {
			el, err := xmltree.Parse(append([]byte(nil), d...))
			if err != nil {
				return nil
			}
			out = append(out, el)
		}
		return out
	}
	own := parse()
	if own == nil {
		t.Count("documents that fail", 1)
		return
	}
	var before []string
	for _, el := range own {
		before = append(before, dumpTree(el))
	}
	type call struct {
		op         treeOp
		ti, tj     int
		a, b       int
		want, got  Outcome
		desc       string
		fromShared *xmltree.Scope
	}
	nt := 2 + s.Choose(3)
	tasks := make([][]call, nt)
	hot := s.Choose(40) // tasks like to meet at one element
	for i := range tasks {
		for k := 0; k <= s.Choose(4); k++ {
			c := call{op: drawTreeOp(s), ti: s.Choose(n), tj: s.Choose(n), a: s.Choose(40), b: s.Choose(40)}
			if s.Chance(1, 2) {
				c.a = hot
			}
			c.desc = fmt.Sprintf("%s on element %d of tree %d (other: %d of %d)", c.op.name, c.a, c.ti, c.b, c.tj)
			tasks[i] = append(tasks[i], c)
			t.Descf("  task %d: %s", i, c.desc)
		}
	}
	run := func(c *call, trees []*xmltree.Element) Outcome {
		return Try(func() (string, error) {
			return c.op.run(at(trees[c.ti], c.a), at(trees[c.tj], c.b)), nil
		})
	}
	// alone, on trees that nobody else uses
	t.Sim(func() {
		for i := range tasks {
			for k := range tasks[i] {
				tasks[i][k].want = run(&tasks[i][k], own)
			}
		}
	})
	if s.Chance(1, 2) {
		// the concurrent calls are the first of their process
		t.restart()
	}
	shared := parse()
	if shared == nil {
		t.Fail("result differs", "the documents can be parsed once but not again")
		return
	}
	var fns []func()
	for i := range tasks {
		calls := tasks[i]
		fns = append(fns, func() {
			for k := range calls {
				calls[k].got = run(&calls[k], shared)
			}
		})
	}
	sw := simrt.Switches()
	simrt.SwitchRate([]int{4, 32, 128, 400}[s.Choose(4)])
	if s.Chance(1, 3) && simrt.Focus("/xmltree", s.Chance(1, 4), s.Choose(1<<16)) {
		t.Count("runs with a focus", 1)
	}
	t.Sim(fns...)
	simrt.Unfocus()
	simrt.SwitchRate(64)
	if simrt.Switches() > sw {
		t.Nontrivial = true
	}
	t.Count("concurrent calls", int64(nt))
	for i := range tasks {
		for _, c := range tasks[i] {
			simrt.Note(hash(c.got.Val))
			if fmt.Sprint(c.want.Panic, c.want.Val) != fmt.Sprint(c.got.Panic, c.got.Val) {
				t.Fail("result differs", "task %d: %s: %s", i, c.desc, outcomeDiff(c.want, c.got)+"\n"+c.got.Stack)
				return
			}
		}
	}
	for i, el := range shared {
		if d := dumpTree(el); d != before[i] {
			t.Fail("tree modified", "after concurrent reads: %s", diff(before[i], d))
		}
	}
}
