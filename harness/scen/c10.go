package scen

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// C10: files that import and include each other in graphs of every shape are
// generated from with import following, from some of the files; the result
// must be what naming every reachable file gives.  Files that are missing or
// fail are reported.
func init() { register("C10", 60e6, c10) }

// graphDocs builds a file for each node of the graph; edges are imports, or
// includes between files of one namespace.
func graphDocs(s *simrt.Stream, n int, edges [][]int, dir string) (DocSet, []string) {
	ns := make([]string, n)
	for i := range ns {
		ns[i] = fmt.Sprintf("urn:g%d", i)
		if i > 0 && s.Chance(1, 4) {
			ns[i] = ns[s.Choose(i)]
		}
	}
	var names []string
	style := s.Choose(5)
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("f%02d.xsd", i)
		switch {
		case style == 3: // the same name in several directories
			nm = fmt.Sprintf("%sf%02d.xsd", []string{"", "a/", "b/"}[i%3], i/3)
		case style == 4 && i%2 == 1: // names that differ in case
			nm = fmt.Sprintf("F%02d.xsd", i-1)
		}
		names = append(names, nm)
	}
	set := DocSet{Kind: "graph"}
	for i := 0; i < n; i++ {
		var b strings.Builder
		if s.Chance(1, 5) {
			b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- file -->\n")
		}
		fmt.Fprintf(&b, "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" targetNamespace=%q xmlns:t=%q", ns[i], ns[i])
		for _, j := range edges[i] {
			fmt.Fprintf(&b, " xmlns:n%d=%q", j, ns[j])
		}
		b.WriteString(">\n")
		used := map[int]bool{}
		var refs []int
		for _, j := range edges[i] {
			loc := filepath.Join(dir, names[j])
			switch s.Choose(8) {
			case 0:
				loc = "./" + loc
			case 1:
				loc = filepath.Join(dir, "sub") + "/../" + names[j]
			}
			if ns[i] == ns[j] {
				fmt.Fprintf(&b, "  <xs:include schemaLocation=%q/>\n", loc)
			} else {
				fmt.Fprintf(&b, "  <xs:import namespace=%q schemaLocation=%q/>\n", ns[j], loc)
			}
			if !used[j] {
				used[j] = true
				refs = append(refs, j)
			}
			if s.Chance(1, 6) {
				// without a location: not an error by itself
				fmt.Fprintf(&b, "  <xs:import namespace=%q/>\n", ns[j])
			}
		}
		if s.Chance(1, 8) {
			b.WriteString("  <xs:import namespace=\"urn:elsewhere\"/>\n")
		}
		fmt.Fprintf(&b, "  <xs:simpleType name=\"s%02d\"><xs:restriction base=\"xs:string\"><xs:maxLength value=\"%d\"/></xs:restriction></xs:simpleType>\n", i, i+1)
		fmt.Fprintf(&b, "  <xs:complexType name=\"c%02d\"><xs:sequence>\n    <xs:element name=\"own\" type=\"t:s%02d\"/>\n", i, i)
		for k, j := range refs {
			if s.Chance(2, 3) {
				fmt.Fprintf(&b, "    <xs:element name=\"e%d\" type=\"n%d:s%02d\"/>\n", k, j, j)
			}
		}
		b.WriteString("  </xs:sequence></xs:complexType>\n</xs:schema>\n")
		set.Docs = append(set.Docs, Doc{Name: names[i], Data: []byte(b.String()), Refs: refs})
	}
	var files []string
	for _, nm := range names {
		files = append(files, filepath.Join(dir, nm))
	}
	return set, files
}

// drawGraph draws the edges of an import graph.
func drawGraph(s *simrt.Stream) (int, [][]int, string) {
	switch s.Choose(7) {
	case 0: // a ladder of diamonds: exponentially many paths
		layers := 1 + s.Choose(20)
		n := 2*layers + 1
		e := make([][]int, n)
		for l := 0; l < layers; l++ {
			a, b := 2*l, 2*l+1
			next := []int{2*l + 2}
			if l+1 < layers {
				next = append(next, 2*l+3)
			}
			e[a] = append(e[a], next...)
			e[b] = append(e[b], next...)
		}
		return n, e, "ladder"
	case 1: // a ring, perhaps with chords
		n := 1 + s.Choose(6)
		e := make([][]int, n)
		for i := range e {
			e[i] = append(e[i], (i+1)%n)
			if s.Chance(1, 4) {
				e[i] = append(e[i], s.Choose(n))
			}
		}
		return n, e, "ring"
	case 2: // complete
		n := 2 + s.Choose(4)
		e := make([][]int, n)
		for i := range e {
			for j := range e {
				e[i] = append(e[i], j)
			}
		}
		return n, e, "complete, with self-imports"
	case 3: // a long chain, with a way back
		n := 2 + s.Choose(30)
		if s.Chance(1, 8) {
			n = 60 + s.Choose(200)
		}
		e := make([][]int, n)
		for i := 0; i+1 < n; i++ {
			e[i] = append(e[i], i+1)
		}
		if s.Chance(1, 2) {
			e[n-1] = append(e[n-1], s.Choose(n))
		}
		return n, e, "chain"
	}
	n := 1 + s.Choose(7)
	e := make([][]int, n)
	d := 1 + s.Choose(3)
	for i := range e {
		for j := range e {
			if s.Choose(4) < d-1 || s.Chance(1, 5) {
				e[i] = append(e[i], j)
			}
		}
		for k := len(e[i]) - 1; k > 0; k-- {
			m := k - s.Choose(k+1)
			e[i][k], e[i][m] = e[i][m], e[i][k]
		}
		if len(e[i]) > 0 && s.Chance(1, 6) {
			e[i] = append(e[i], e[i][0]) // imported twice
		}
	}
	return n, e, "random"
}

func c10(t *T) {
	s := simrt.S("c10")
	simrt.SetProfile(0)
	dir := []string{"", "in"}[s.Choose(2)]
	n, edges, shape := drawGraph(s)
	set, files := graphDocs(s, n, edges, dir)
	opts := drawOpts("opts", DocSet{Kind: "graph"})
	opts.only, opts.allow, opts.ignoreE = nil, nil, nil
	inputs := map[string][]byte{}
	for i, d := range set.Docs {
		inputs[files[i]] = d.Data
	}
	// the start files
	var start []int
	for len(start) == 0 || s.Chance(1, 4) {
		start = append(start, s.Choose(n))
	}
	seen := map[int]bool{}
	var argv []string
	var post, pre []int
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		pre = append(pre, i)
		for _, j := range set.Docs[i].Refs {
			visit(j)
		}
		post = append(post, i)
	}
	for _, i := range start {
		argv = append(argv, files[i])
		visit(i)
	}
	t.Case(shape, start)
	for i, d := range set.Docs {
		t.Case(string(d.Data))
		t.Descf("%s (imports %v): %s", files[i], edges[i], clip(d.Data))
	}
	entry := []string{"xsdgen", "xsdgen.Config", "xsdgen.Config"}[s.Choose(3)]
	cmd := cmdSpec{entry: entry, files: argv, out: "gen.go", flags: []string{"-f"}, opts: opts}
	if s.Chance(1, 6) {
		cmd.flags = append(cmd.flags, "-vv")
	}
	mk := func(extra map[string][]byte) {
		m := map[string][]byte{}
		for k, v := range inputs {
			m[k] = v
		}
		m[filepath.Join(dir, "sub", "keep")] = nil
		for k, v := range extra {
			m[k] = v
		}
		t.reset(m)
	}
	mk(nil)
	f := t.newFsim(inputs)
	res := t.runCmd(f, cmd)
	t.Descf("graph %s of %d files, %s reaches %d: %s", shape, n, cmd, len(post), res)
	if len(t.Fails) > 0 {
		t.Fails[0].Msg += fmt.Sprintf("\n graph %s, %s", shape, cmd)
		return
	}
	if res.failed {
		t.Fail("following fails", "%s (graph %s of %d files): %s", cmd, shape, n, res)
		return
	}
	got, ok := t.content("gen.go")
	if !ok {
		t.Fail("no output", "%s reported success and left no output", cmd)
		return
	}
	// naming every reachable file, in the orders a reader might use
	opened := map[string]bool{}
	var order []string
	for _, o := range f.ops {
		if o.op == "openat" && o.class == clInput && !opened[o.path] {
			opened[o.path] = true
			order = append(order, o.path)
		}
	}
	name := func(l []int) []string {
		var out []string
		for _, i := range l {
			out = append(out, files[i])
		}
		return out
	}
	want := name(post)
	sorted := append([]string(nil), want...)
	sort.Strings(sorted)
	for _, p := range sorted {
		if !opened[p] {
			t.Fail("reachable file not read", "%s does not read %s (graph %s)", cmd, p, shape)
			return
		}
	}
	if len(order) != len(want) {
		t.Fail("unreachable file read", "%s reads %v, reachable are %v", cmd, order, sorted)
		return
	}
	if len(post) > 1 {
		t.Nontrivial = true
	}
	t.Fault("import graph: " + shape)
	rev := append([]string(nil), order...)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	explicit := cmd
	explicit.flags = cmd.flags[1:]
	okSame := false
	var first string
	tried := map[string]bool{}
	for k, l := range [][]string{want, name(pre), order, rev, sorted} {
		if tried[strings.Join(l, " ")] {
			continue
		}
		tried[strings.Join(l, " ")] = true
		explicit.files = l
		mk(nil)
		r2 := t.runCmd(t.newFsim(inputs), explicit)
		if len(t.Fails) > 0 {
			return
		}
		src, _ := t.content("gen.go")
		if r2.failed {
			if k == 0 {
				t.Fail("explicit run fails", "%s succeeds, %s: %s", cmd, explicit, r2)
				return
			}
			continue
		}
		if k == 0 {
			first = src
		}
		if src == got {
			okSame = true
			break
		}
	}
	if !okSame && sortedDecls(first) != sortedDecls(got) {
		explicit.files = want
		t.Fail("other source", "%s and %s generate different source (graph %s): %s", cmd, explicit, shape, diff(first, got))
		return
	}
	// a failure of any of the reachable files
	for i := 0; i < 4; i++ {
		k := post[s.Choose(len(post))]
		mk(nil)
		p := files[k]
		what := p
		switch s.Choose(4) {
		case 0:
			remove(filepath.Join(t.Scratch, p))
			what += " is missing"
			t.Fault("reachable file missing")
		case 1:
			e := docElement(inputs[p])
			t.Write(p, inputs[p][:e[0]+1+s.Choose(e[1]-e[0]-1)])
			what += " is cut off"
			t.Fault("reachable file cut off")
		default:
			var ops []int
			for x, o := range f.ops {
				if o.path == p && (o.op == "openat" || o.op == "read" && o.off < len(inputs[p])) {
					ops = append(ops, x)
				}
			}
			if len(ops) == 0 {
				continue
			}
			ff := t.newFsim(inputs, fsFault{at: ops[s.Choose(len(ops))], kind: s.Choose(1 << 10), cut: s.Choose(1 << 16), stays: s.Chance(1, 2)})
			r := t.runCmd(ff, cmd)
			if len(t.Fails) > 0 {
				return
			}
			if !r.failed && len(ff.must) > 0 {
				t.Fail("failure of an imported file lost", "%s succeeds although %s", cmd, strings.Join(ff.log, "; "))
				return
			}
			if src, _ := t.content("gen.go"); !r.failed && src != got {
				t.Fail("other source", "%s succeeds with other source after %s: %s", cmd, strings.Join(ff.log, "; "), diff(got, src))
				return
			}
			continue
		}
		r := t.runCmd(t.newFsim(inputs), cmd)
		if len(t.Fails) > 0 {
			return
		}
		if !r.failed {
			t.Fail("failure of an imported file lost", "%s succeeds although %s", cmd, what)
			return
		}
	}
}

// sortedDecls splits source into paragraphs and sorts them.
func sortedDecls(src string) string {
	var out []string
	for _, p := range strings.Split(src, "\n\n") {
		out = append(out, strings.TrimSpace(p))
	}
	sort.Strings(out)
	return strings.Join(out, "\n\n")
}
