package scen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

// C25: tasks modify trees of their own, some parsed from the same buffer, and
// read them and a common tree in between, over writers that may fail.  Each
// tree becomes what the modifications alone make of it, and every call returns
// what it returns alone.
func init() { register("C25", 60e6, c25) }

// treeStep is one step of a script: a modification of the tree or a call that
// reads it.
type treeStep struct {
	name string
	mod  func(root, common *xmltree.Element)
	read *treeOp
	a, b int
	onCo bool // the other element is of the common tree
	keep bool // keep the encoding
	set  []string
	at   int
	// target is the element modified, if not element at
	target func(root *xmltree.Element) *xmltree.Element
	// change says what the modification may change: element at ("one"), or
	// the number of elements ("more", "less"), or their order ("order")
	change string
}

func drawFragment(s *simrt.Stream) []byte {
	nm := names[s.Choose(len(names))]
	switch s.Choose(4) {
	case 0:
		return []byte("<" + nm + "/>")
	case 1:
		return []byte(`<p:` + nm + ` xmlns:p="urn:b" p:key="v" id="7">text<p:item/></p:` + nm + `>`)
	case 2:
		return []byte(`<` + nm + ` xmlns="urn:c" a="1" b="2" c="3"><item>one</item><item key="k">two</item></` + nm + `>`)
	}
	return []byte(`<q:` + nm + ` xmlns:q="urn:a" xmlns="urn:d0">x &amp; y</q:` + nm + `>`)
}

// drawTreeStep draws a step.
func drawTreeStep(s *simrt.Stream, large bool) treeStep {
	st := treeStep{a: s.Choose(40), b: s.Choose(40), onCo: s.Chance(1, 2)}
	if large {
		st.a += 40 * s.Choose(20)
	}
	if s.Chance(1, 2) {
		op := drawTreeOp(s)
		st.read, st.name, st.keep = &op, op.name, s.Chance(1, 4)
		return st
	}
	nm := names[s.Choose(len(names))]
	sp := []string{"", "", "urn:a", "urn:b"}[s.Choose(4)]
	val := []string{"v1", "", "x y", "longer value of an attribute"}[s.Choose(4)]
	k, j := st.a, st.b
	st.at, st.change = k, "one"
	switch s.Choose(13) {
	case 11, 12:
		// through what a search finds
		var find func(r *xmltree.Element) []*xmltree.Element
		match := func(e *xmltree.Element) bool {
			return e.Name.Local == nm && (sp == "" || e.Name.Space == sp)
		}
		switch s.Choose(4) {
		case 0:
			st.name = fmt.Sprintf("SetAttr on element %d of Flatten", j)
			match = func(e *xmltree.Element) bool { return true }
			find = (*xmltree.Element).Flatten
		case 1:
			st.name = fmt.Sprintf("SetAttr on element %d that SearchFunc finds", j)
			f := match
			match = func(e *xmltree.Element) bool { return f(e) || len(e.Children) == 0 }
			find = func(r *xmltree.Element) []*xmltree.Element { return r.SearchFunc(match) }
		default:
			st.name = fmt.Sprintf("SetAttr on element %d that Search(%q, %q) finds", j, sp, nm)
			find = func(r *xmltree.Element) []*xmltree.Element { return r.Search(sp, nm) }
		}
		st.set = []string{sp, nm, val}
		st.target = func(r *xmltree.Element) *xmltree.Element {
			if l := deep(at(r, k), match, nil); len(l) > 0 {
				return l[j%len(l)]
			}
			return nil
		}
		st.mod = func(r, _ *xmltree.Element) {
			if l := find(at(r, k)); len(l) > 0 {
				l[j%len(l)].SetAttr(sp, nm, val)
			}
		}
	case 9, 10:
		st.name = fmt.Sprintf("assign %q to an attribute", val)
		st.mod = func(r, _ *xmltree.Element) {
			if el := at(r, k); len(el.StartElement.Attr) > 0 {
				el.StartElement.Attr[j%len(el.StartElement.Attr)].Value = val
			}
		}
	case 0:
		st.name = "rename to " + nm
		st.mod = func(r, _ *xmltree.Element) { at(r, k).Name = xml.Name{Space: sp, Local: nm} }
	case 1:
		st.name, st.change = "remove a child", "less"
		st.mod = func(r, _ *xmltree.Element) {
			el := at(r, k)
			if n := len(el.Children); n > 0 {
				i := j % n
				el.Children = append(el.Children[:i:i], el.Children[i+1:]...)
			}
		}
	case 2:
		doc := drawFragment(s)
		st.name, st.change = "append "+string(doc), "more"
		st.mod = func(r, _ *xmltree.Element) {
			if el, err := xmltree.Parse(doc); err == nil {
				to := at(r, k)
				to.Children = append(to.Children, *el)
			}
		}
	case 3:
		st.name, st.change = "swap children", "order"
		st.mod = func(r, _ *xmltree.Element) {
			el := at(r, k)
			if n := len(el.Children); n > 1 {
				el.Children[j%n], el.Children[(j+1)%n] = el.Children[(j+1)%n], el.Children[j%n]
			}
		}
	case 4:
		st.name = "set content"
		st.mod = func(r, _ *xmltree.Element) {
			if el := at(r, k); len(el.Children) == 0 {
				el.Content = []byte(val)
			}
		}
	case 5:
		st.name = "join a scope"
		co := st.onCo
		st.mod = func(r, c *xmltree.Element) {
			el, other := at(r, k), at(r, j)
			if co {
				other = at(c, j)
			}
			if j%2 == 0 {
				el.Scope = *other.Scope.JoinScope(&el.Scope)
			} else {
				el.Scope = *el.Scope.JoinScope(&other.Scope)
			}
		}
	default:
		st.name = fmt.Sprintf("SetAttr(%q, %q, %q)", sp, nm, val)
		st.set = []string{sp, nm, val}
		st.mod = func(r, _ *xmltree.Element) { at(r, k).SetAttr(sp, nm, val) }
	}
	return st
}

// deep lists the elements below el that match, depth first, without using the
// code under test.
func deep(el *xmltree.Element, match func(*xmltree.Element) bool, out []*xmltree.Element) []*xmltree.Element {
	for i := range el.Children {
		if len(out) >= maxFlat {
			break
		}
		c := &el.Children[i]
		if match(c) {
			out = append(out, c)
		}
		out = deep(c, match, out)
	}
	return out
}

// shallow tells everything about each element but its children.
func shallow(root *xmltree.Element) []string {
	var out []string
	for _, e := range flat(root) {
		out = append(out, fmt.Sprintf("%v %q %q %s", e.Name, e.StartElement.Attr, e.Content, scopeString(&e.Scope)))
	}
	return out
}

type treeScript struct {
	doc   int
	steps []treeStep
	root  *xmltree.Element
	res   []string
	reads []string // the results of the steps that read, which are in res, too
	kept  [][]byte
	was   []string
	fail  string

	scopes []*xmltree.Scope // that JoinScope returned
	scopeW []string
}

// runScript does the steps; reads says whether those that read, too.
func (sc *treeScript) runScript(common *xmltree.Element, reads, watch bool) {
	for _, st := range sc.steps {
		if st.mod != nil {
			var before []string
			if watch {
				before = shallow(sc.root)
				if st.target != nil {
					el := st.target(sc.root)
					st.at = -1
					for i, e := range flat(sc.root) {
						if e == el {
							st.at = i
						}
					}
				}
			}
			o := Try(func() (string, error) { st.mod(sc.root, common); return "", nil })
			if o.Panic != nil {
				sc.res = append(sc.res, fmt.Sprintf("%s: panic %v", st.name, o.Panic))
			}
			if before != nil {
				sc.checkMod(st, before)
			}
			continue
		}
		if !reads {
			continue
		}
		o := Try(func() (string, error) {
			other := common
			if !st.onCo {
				other = sc.root
			}
			r := st.read.run(at(sc.root, st.a), at(other, st.b))
			if st.keep {
				j := at(sc.root, st.a).JoinScope(&at(other, st.b).Scope)
				sc.scopes, sc.scopeW = append(sc.scopes, j), append(sc.scopeW, scopeString(j))
				b := xmltree.Marshal(at(sc.root, st.a))
				sc.kept, sc.was = append(sc.kept, b), append(sc.was, string(b))
			}
			return r, nil
		})
		r := fmt.Sprintf("%s: %v %s", st.name, o.Panic, o.Val)
		sc.res, sc.reads = append(sc.res, r), append(sc.reads, r)
	}
}

// checkMod judges what a modification did.
func (sc *treeScript) checkMod(st treeStep, before []string) {
	if sc.fail != "" {
		return
	}
	after := shallow(sc.root)
	k := -1
	if st.at >= 0 {
		k = st.at % len(before)
	}
	if st.change != "one" {
		// elements come and go, but none changes
		count := map[string]int{}
		for _, e := range before {
			count[e]++
		}
		for _, e := range after {
			count[e]--
		}
		for _, e := range append(before[:len(before):len(before)], after...) {
			n := count[e]
			if sc.fail != "" {
				break
			}
			if n > 0 && st.change != "less" || n < 0 && st.change != "more" {
				sc.fail = fmt.Sprintf("%s on element %d made elements appear or vanish: %d of %s", st.name, k, -n, e)
			}
		}
		return
	}
	for i := range after {
		if i < len(before) && i != k && before[i] != after[i] {
			sc.fail = fmt.Sprintf("%s on element %d changed element %d from %s to %s", st.name, k, i, before[i], after[i])
			return
		}
	}
	if len(after) != len(before) {
		sc.fail = fmt.Sprintf("%s changed the number of elements", st.name)
		return
	}
	if st.set == nil || k < 0 {
		return
	}
	if got := at(sc.root, st.at).Attr(st.set[0], st.set[1]); got != st.set[2] {
		sc.fail = fmt.Sprintf("after %s on element %d, the attribute is %q", st.name, k, got)
	}
}

func (sc *treeScript) final() string {
	o := Try(func() (string, error) {
		var b strings.Builder
		b.WriteString(dumpTree(sc.root))
		for _, e := range shallow(sc.root) {
			b.WriteString(e + "\n")
		}
		b.Write(xmltree.Marshal(sc.root))
		b.Write(xmltree.MarshalIndent(sc.root, "", " "))
		return b.String(), nil
	})
	return fmt.Sprint(o.Panic, o.Val)
}

func c25(t *T) {
	s := simrt.S("c25")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	var docs [][]byte
	// sets of schemas whose normalized trees are modified, by document
	norm := map[int][][]byte{}
	n := 1 + s.Choose(2)
	for i := 0; i <= n; i++ {
		if s.Chance(1, 12) {
			set := genXSD(fmt.Sprintf("xsd%d", i), genOpts{maxDocs: 2, maxTypes: 5})
			if s.Chance(1, 4) {
				set = t.corpusSet(fmt.Sprintf("corpus%d", i), 4000, func(nm string) bool { return strings.HasSuffix(nm, ".xsd") })
			}
			if _, err := xsd.Normalize(set.Bytes()...); err != nil {
				t.Count("documents that fail", 1)
				return
			}
			norm[i] = set.Bytes()
			docs = append(docs, bytes.Join(norm[i], []byte("\n")))
			t.Count("normalized trees", 1)
			t.Case(string(docs[i]))
			for _, d := range norm[i] {
				t.Descf("document %d, normalized: %s", i, clip(d))
			}
			continue
		}
		d := genXML(fmt.Sprintf("xml%d", i), 14)
		if s.Chance(1, 6) {
			d = t.corpusSet(fmt.Sprintf("corpus%d", i), 3000, nil).Docs[0].Data
		}
		if _, err := xmltree.Parse(append([]byte(nil), d...)); err != nil {
			t.Count("documents that fail", 1)
			return
		}
		docs = append(docs, d)
		t.Case(string(d))
		t.Descf("document %d: %s", i, clip(d))
	}
	var scripts []treeScript
	for i := 0; i < 2+s.Choose(3); i++ {
		sc := treeScript{doc: s.Choose(n)}
		for k := 0; k < 1+s.Choose(12); k++ {
			st := drawTreeStep(s, norm[sc.doc] != nil && s.Chance(2, 3))
			if k > 0 && s.Chance(1, 4) {
				// the same as before, perhaps after a modification
				if old := sc.steps[s.Choose(k)]; old.read != nil {
					st = old
				}
			}
			sc.steps = append(sc.steps, st)
			t.Descf("  task %d (document %d): %s on element %d", i, sc.doc, st.name, st.a)
		}
		scripts = append(scripts, sc)
	}
	parse := func(b []byte) *xmltree.Element {
		el, err := xmltree.Parse(b)
		if err != nil {
			panic(err)
		}
		return el
	}
	clone := func(i int) []byte { return append([]byte(nil), docs[i]...) }
	// tree makes the tree of document i from a buffer that holds it
	tree := func(i int, b []byte) *xmltree.Element {
		if norm[i] == nil {
			return parse(b)
		}
		var list [][]byte
		for _, d := range norm[i] {
			list = append(list, b[:len(d):len(d)])
			b = b[min(len(d)+1, len(b)):]
		}
		els, err := xsd.Normalize(list...)
		if err != nil {
			panic(err)
		}
		// one tree of all but the published ones
		root := &xmltree.Element{}
		root.Name.Local = "all"
		for _, el := range els[:len(els)-len(xsd.StandardSchema)] {
			root.Children = append(root.Children, *el)
		}
		return root
	}
	// alone: the modifications, and then everything, on trees of their own
	wantEnd := make([]string, len(scripts))
	wantRes := make([][]string, len(scripts))
	wantReads := make([][]string, len(scripts))
	bad := false
	t.Sim(func() {
		for i := range scripts {
			m := treeScript{steps: scripts[i].steps, root: tree(scripts[i].doc, clone(scripts[i].doc))}
			m.runScript(tree(n, clone(n)), false, false)
			wantEnd[i] = m.final()
			f := treeScript{steps: scripts[i].steps, root: tree(scripts[i].doc, clone(scripts[i].doc))}
			f.runScript(tree(n, clone(n)), true, true)
			wantRes[i], wantReads[i] = f.res, f.reads
			if f.fail != "" {
				t.Fail("modification elsewhere", "%s", f.fail)
				bad = true
				return
			}
			if e := f.final(); e != wantEnd[i] {
				t.Fail("reads change what modifications do", "task %d: %s", i, diff(wantEnd[i], e))
				bad = true
				return
			}
		}
	})
	if bad || len(t.Fails) > 0 {
		return
	}
	// each call that reads, after the modifications before it alone
	for i := range scripts {
		reads := -1
		for k, st := range scripts[i].steps {
			if st.read == nil {
				continue
			}
			reads++
			if s.Chance(1, 3) || norm[scripts[i].doc] != nil && s.Chance(2, 3) {
				continue
			}
			var steps []treeStep
			for _, m := range scripts[i].steps[:k] {
				if m.mod != nil {
					steps = append(steps, m)
				}
			}
			f := treeScript{steps: append(steps, st)}
			simrt.Restart()
			t.Sim(func() {
				f.root = tree(scripts[i].doc, clone(scripts[i].doc))
				f.runScript(tree(n, clone(n)), true, false)
			})
			if len(t.Fails) > 0 {
				return
			}
			want, got := f.reads[0], wantReads[i][reads]
			if got != want {
				t.Fail("reads depend on earlier reads", "task %d: step %d, %s", i, k, diff(want, got))
				return
			}
		}
	}
	if s.Chance(1, 2) {
		t.restart()
	}
	// together
	bufs := make([][]byte, n+1)
	for i := range bufs {
		bufs[i] = clone(i)
	}
	common := tree(n, bufs[n])
	commonWas := dumpTree(common)
	late := s.Chance(1, 2)
	var fns []func()
	for i := range scripts {
		sc := &scripts[i]
		if !late {
			sc.root = tree(sc.doc, bufs[sc.doc])
		}
		fns = append(fns, func() {
			if late {
				sc.root = tree(sc.doc, bufs[sc.doc])
			}
			sc.runScript(common, true, false)
		})
	}
	sw := simrt.Switches()
	simrt.SwitchRate([]int{4, 32, 128, 400}[s.Choose(4)])
	t.Sim(fns...)
	simrt.SwitchRate(64)
	if len(t.Fails) > 0 {
		return
	}
	t.Nontrivial = simrt.Switches() > sw
	for i := range scripts {
		sc := &scripts[i]
		for k := range wantRes[i] {
			simrt.Note(hash(sc.res[k]))
			if sc.res[k] != wantRes[i][k] {
				t.Fail("result differs", "task %d: %s", i, diff(wantRes[i][k], sc.res[k]))
				return
			}
		}
		if e := sc.final(); e != wantEnd[i] {
			t.Fail("tree differs", "task %d: %s", i, diff(wantEnd[i], e))
			return
		}
		for k, b := range sc.kept {
			if string(b) != sc.was[k] {
				t.Fail("earlier result changed", "task %d: an encoding: %s", i, diff(sc.was[k], string(b)))
				return
			}
			if now := scopeString(sc.scopes[k]); now != sc.scopeW[k] {
				t.Fail("earlier result changed", "task %d: a joined scope: %s", i, diff(sc.scopeW[k], now))
				return
			}
		}
	}
	if d := dumpTree(common); d != commonWas {
		t.Fail("modification elsewhere", "the tree that is only read: %s", diff(commonWas, d))
	}
	for i := range bufs {
		if !bytes.Equal(bufs[i], docs[i]) {
			t.Fail("modification elsewhere", "document %d: %s", i, diff(string(docs[i]), string(bufs[i])))
			return
		}
	}
}
