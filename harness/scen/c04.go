package scen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"path/filepath"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// C04: what the caller hands in stays as it was.  A history of calls shares
// buffers, a list of documents and parsed trees; after every call all of them,
// with the unused capacity behind them and the published built-in schemas,
// must be as before, and a call repeated later gives the same result.
func init() { register("C04", 60e6, c04) }

// guarded is a caller's buffer: the document inside an array with bytes
// before and behind it.
type guarded struct {
	whole []byte
	copy  []byte
	doc   []byte
}

// guardDocs lays out documents in one array each, or one after the other in a
// single array.
func guardDocs(docs [][]byte, adjacent bool, spare int) []guarded {
	var out []guarded
	if adjacent {
		var all []byte
		for _, d := range docs {
			all = append(all, d...)
		}
		for i := 0; i < spare; i++ {
			all = append(all, "<x/>"[i%4])
		}
		all = all[:len(all):len(all)]
		c := append([]byte(nil), all...)
		off := 0
		for _, d := range docs {
			out = append(out, guarded{all, c, all[off : off+len(d)]})
			off += len(d)
		}
		return out
	}
	for _, d := range docs {
		all := make([]byte, 0, len(d)+spare+8)
		all = append(all, "GUARD"...)
		all = append(all, d...)
		for i := 0; i < spare; i++ {
			all = append(all, byte('A'+i%26))
		}
		out = append(out, guarded{all, append([]byte(nil), all...), all[5 : 5+len(d)]})
	}
	return out
}

type c04state struct {
	t     *T
	bufs  []guarded
	list  [][]byte // with capacity behind it
	lcopy [][]byte
	std   [][]byte
	stdc  [][]byte
	trees []*xmltree.Element
	dumps []string
	// scopes returned by JoinScope earlier
	scopes []*xmltree.Scope
	reads  []string
	models [][]xsd.Schema
	mdumps []string
	// lists of names that were arguments, up to their capacity
	args, argsc [][]string
	nargs       []xml.Name
	nargsc      []xml.Name
}

// arg makes a list that is handed to the library.
func (c *c04state) arg(spare int, names ...string) []string {
	full := append(make([]string, 0, len(names)+spare), names...)
	for i := 0; i < spare; i++ {
		_ = append(full[:len(names)+i], fmt.Sprintf("spare%d", i))
	}
	c.args = append(c.args, full[:cap(full)])
	c.argsc = append(c.argsc, append([]string(nil), full[:cap(full)]...))
	return full
}

func fullCap(b []byte) []byte { return b[:cap(b)] }

// check compares everything the caller owns with what it was.
func (c *c04state) check(what string) bool {
	for i, g := range c.bufs {
		if !bytes.Equal(g.whole, g.copy) {
			k := 0
			for g.whole[k] == g.copy[k] {
				k++
			}
			c.t.Fail("document bytes modified", "%s changed buffer %d at offset %d: %q is now %q", what, i, k, near(g.copy, k), near(g.whole, k))
			return false
		}
	}
	full := c.list[:cap(c.list)]
	for i := range full {
		a, b := full[i], c.lcopy[i]
		if len(a) != len(b) || len(a) > 0 && &a[0] != &b[0] || cap(a) != cap(b) {
			c.t.Fail("list of documents modified", "%s changed entry %d of the list of documents (of %d, capacity %d)", what, i, len(c.list), cap(c.list))
			return false
		}
	}
	if len(xsd.StandardSchema) != len(c.std) {
		c.t.Fail("standard schema modified", "%s changed the list xsd.StandardSchema", what)
		return false
	}
	for i, d := range xsd.StandardSchema {
		if !bytes.Equal(fullCap(d), c.stdc[i]) || len(d) != len(c.std[i]) || &d[0] != &c.std[i][0] {
			c.t.Fail("standard schema modified", "%s changed xsd.StandardSchema[%d]", what, i)
			return false
		}
	}
	for i, tr := range c.trees {
		if d := dumpTree(tr); d != c.dumps[i] {
			c.t.Fail("tree modified", "%s changed tree %d: %s", what, i, diff(c.dumps[i], d))
			return false
		}
	}
	for i, s := range c.scopes {
		if r := scopeString(s); r != c.reads[i] {
			c.t.Fail("scope modified", "%s changed a scope returned by JoinScope earlier: %s", what, diff(c.reads[i], r))
			return false
		}
	}
	for i, a := range c.args {
		for k := range a {
			if a[k] != c.argsc[i][k] {
				c.t.Fail("arguments modified", "%s changed entry %d of a list of arguments from %q to %q", what, k, c.argsc[i][k], a[k])
				return false
			}
		}
	}
	for i, n := range c.nargs {
		if n != c.nargsc[i] {
			c.t.Fail("arguments modified", "%s changed entry %d of a list of names from %v to %v", what, i, c.nargsc[i], n)
			return false
		}
	}
	for i, m := range c.models {
		if d := dumpSchemas(m); d != c.mdumps[i] {
			c.t.Fail("model modified", "%s changed a model returned by xsd.Parse earlier: %s", what, diff(c.mdumps[i], d))
			return false
		}
	}
	return true
}

func near(b []byte, k int) string {
	lo, hi := k-10, k+20
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	return string(b[lo:hi])
}

func c04(t *T) {
	s := simrt.S("c04")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	var docs [][]byte
	wsdlDoc := false
	switch s.Choose(6) {
	case 0, 1:
		set := genXSD("xsd", genOpts{maxDocs: 3, maxTypes: 8, split: true, soap: true})
		docs = set.Bytes()
	case 2:
		set := genWSDL("wsdl", genOpts{maxDocs: 2, maxTypes: 6, soap: true})
		docs = set.Bytes()
		wsdlDoc = true
	case 3:
		set := t.corpusSet("corpus", 20000, nil)
		docs = set.Bytes()
		wsdlDoc = set.WSDL
	default:
		for i := 0; i <= s.Choose(3); i++ {
			docs = append(docs, genXML(fmt.Sprintf("xml%d", i), 25))
		}
	}
	if len(docs) > 6 {
		docs = docs[:6]
	}
	for i := range docs {
		switch s.Choose(9) {
		case 5, 6:
			if ascii(docs[i]) {
				docs[i] = recode(s, docs[i])
				t.Fault("other encoding")
			}
		case 7:
			docs[i] = docs[i][:s.Choose(len(docs[i]))]
			t.Fault("document cut off")
		case 8:
			docs[i] = []byte(strings.Replace(string(recode(s, []byte("<a>some text</a>"))), "encoding=\"", "encoding=\"x-", 1))
			t.Fault("unknown encoding")
		}
	}
	for _, d := range docs {
		t.Case(string(d))
		t.Descf("document %s", clip(d))
	}
	c := &c04state{t: t, std: xsd.StandardSchema}
	for _, d := range c.std {
		c.stdc = append(c.stdc, append([]byte(nil), fullCap(d)...))
	}
	c.bufs = guardDocs(docs, s.Choose(3) == 2, s.Choose(40))
	nspare := s.Choose(4)
	c.list = make([][]byte, 0, len(docs)+nspare)
	for _, g := range c.bufs {
		c.list = append(c.list, g.doc)
	}
	for i := 0; i < nspare; i++ {
		_ = append(c.list[:len(docs)+i:cap(c.list)], []byte("<spare/>"))
	}
	c.lcopy = append([][]byte(nil), c.list[:cap(c.list)]...)

	// reference results, each from fresh copies
	memo := map[string]string{}
	expect := func(what, got string, fresh func() string) bool {
		want, ok := memo[what]
		if !ok {
			want = fresh()
			memo[what] = want
		}
		if got != want {
			t.Fail("result differs", "%s on shared inputs: %s", what, diff(want, got))
			return false
		}
		return true
	}
	freshList := func() [][]byte {
		var out [][]byte
		for _, d := range docs {
			out = append(out, append([]byte(nil), d...))
		}
		return out
	}
	str := func(f func() (string, error)) string {
		o := Try(f)
		if o.Failed() {
			return "failed"
		}
		return o.Val
	}
	parseTree := func(d []byte) (*xmltree.Element, string) {
		var el *xmltree.Element
		return el, str(func() (string, error) {
			e, err := xmltree.Parse(d)
			if err != nil {
				return "", err
			}
			el = e
			return dumpTree(e), nil
		})
	}
	nops := 3 + s.Choose(8)
	for i := 0; i < nops; i++ {
		kind := s.Choose(12)
		k := s.Choose(len(docs))
		var what string
		ok := true
		t.Sim(func() {
			simrt.MapOrder(s.Choose(2) == 1)
			switch {
			case kind <= 1 || kind == 2 && len(c.trees) == 0:
				what = fmt.Sprintf("xmltree.Parse %d", k)
				var el *xmltree.Element
				got := str(func() (string, error) {
					e, err := xmltree.Parse(c.bufs[k].doc)
					if err != nil {
						return "", err
					}
					el = e
					return dumpTree(e), nil
				})
				ok = expect(what, got, func() string { _, d := parseTree(append([]byte(nil), docs[k]...)); return d })
				if el != nil && len(c.trees) < 4 {
					c.trees = append(c.trees, el)
					c.dumps = append(c.dumps, got)
				}
			case kind == 3:
				what = "xsd.Parse"
				var ms []xsd.Schema
				got := str(func() (string, error) {
					m, err := xsd.Parse(c.list...)
					if err != nil {
						return "", err
					}
					ms = m
					return dumpSchemas(m), nil
				})
				ok = expect(what, got, func() string {
					o := parseXSD(freshList()...)
					if o.Failed() {
						return "failed"
					}
					return o.Val
				})
				if ms != nil && len(c.models) < 2 {
					t.Nontrivial = true
					c.models = append(c.models, ms)
					c.mdumps = append(c.mdumps, got)
				}
			case kind == 4:
				what = "xsd.Normalize"
				f := func(l [][]byte) string {
					return str(func() (string, error) {
						els, err := xsd.Normalize(l...)
						var b strings.Builder
						for _, e := range els {
							if b.Len() < 1<<16 {
								b.WriteString(dumpTree(e))
							}
						}
						return b.String(), err
					})
				}
				ok = expect(what, f(c.list), func() string { return f(freshList()) })
			case kind == 5:
				what = fmt.Sprintf("xsd.Imports %d", k)
				f := func(d []byte) string {
					return str(func() (string, error) { r, err := xsd.Imports(d); return fmt.Sprint(r), err })
				}
				ok = expect(what, f(c.bufs[k].doc), func() string { return f(freshList()[k]) })
			case kind == 6 && wsdlDoc:
				what = fmt.Sprintf("wsdl.Parse %d", k)
				var def *wsdl.Definition
				_ = def
				f := func(d []byte) string {
					o := parseWSDL(d)
					if o.Failed() {
						return "failed"
					}
					return o.Val
				}
				ok = expect(what, f(c.bufs[k].doc), func() string { return f(freshList()[k]) })
			case kind == 7 && s.Choose(2) == 0:
				what = "xsdgen.GenCode"
				cfg := new(xsdgen.Config)
				cfg.Option(xsdgen.DefaultOptions...)
				cfg.Option(xsdgen.PackageName("x"))
				got := str(func() (string, error) {
					code, err := cfg.GenCode(c.list...)
					if err != nil {
						return "", err
					}
					f, err := code.GenAST()
					if err != nil {
						return "", err
					}
					return fmt.Sprint(len(f.Decls)), nil
				})
				_ = got
			case kind == 9 && s.Choose(3) == 0 && len(c.args) < 8:
				ext := ".xsd"
				if wsdlDoc {
					ext = ".wsdl"
				}
				var files []string
				for j, d := range docs {
					p := t.Write(fmt.Sprintf("in%d%s", j, ext), d)
					switch s.Choose(4) {
					case 0:
						p = filepath.Dir(p) + "/./" + filepath.Base(p)
					case 1:
						p = filepath.Dir(p) + "//" + filepath.Base(p)
					case 2:
						p = filepath.Dir(p) + "/../" + filepath.Base(filepath.Dir(p)) + "/" + filepath.Base(p)
					}
					files = append(files, p)
				}
				var order []string
				for _, j := range s.Perm(len(files)) {
					order = append(order, files[j])
				}
				files = c.arg(s.Choose(4), order...)
				spare := s.Choose(3)
				nm := func() string { return names[s.Choose(len(names))] }
				nss := c.arg(spare, "urn:d1", "urn:d0", "http://example.org/ns")
				attrs, els := c.arg(spare, nm(), "id", nm()), c.arg(spare, nm(), nm(), nm())
				only := c.arg(spare, "^"+nm(), ".", nm())
				ports := c.arg(spare, "Port1", "Port0", nm())
				if c.nargs == nil {
					c.nargs = []xml.Name{{Space: "urn:d0", Local: nm()}, {Space: "urn:d1", Local: nm()}, {Local: nm()}}
					c.nargsc = append([]xml.Name(nil), c.nargs...)
				}
				opts := append([]xsdgen.Option(nil), xsdgen.DefaultOptions...)
				opts = append(opts, xsdgen.PackageName("x"), xsdgen.FollowImports(s.Chance(1, 2)), xsdgen.IgnoreAttributes(attrs...), xsdgen.IgnoreElements(els...))
				if s.Chance(1, 2) {
					opts = append(opts, xsdgen.Namespaces(nss...))
				}
				if s.Chance(1, 2) {
					opts = append(opts, xsdgen.OnlyTypes(only...), xsdgen.AllowType(c.nargs[0]), xsdgen.AllowType(c.nargs[1]))
				}
				src := func(b []byte, err error) string { return fmt.Sprint(len(b) > 0, err != nil) }
				x := new(xsdgen.Config)
				call := s.Choose(3)
				o := Try(func() (string, error) {
					x.Option(opts...)
					if wsdlDoc {
						w := new(wsdlgen.Config)
						w.XSDOption(opts...)
						w.Option(wsdlgen.DefaultOptions...)
						w.Option(wsdlgen.OnlyPorts(ports...))
						return src(w.GenSource(files...)), nil
					}
					if call == 0 {
						_, err := x.GenAST(files...)
						return "", err
					}
					return src(x.GenSource(files...)), nil
				})
				what = fmt.Sprintf("GenSource of %q with options (%s)", files, clip([]byte(o.Val)))
				t.Count("generations from files", 1)
			case kind == 8 && len(c.models) > 0:
				what = "queries of a model"
				for _, sch := range c.models[0] {
					for _, n := range sortedNames(sch.Types) {
						ty := sch.Types[n]
						sch.FindType(n)
						xsd.XMLName(ty)
						xsd.Base(ty)
						if b := xsd.Base(ty); b != nil {
							xsd.Base(b)
						}
					}
				}
			case len(c.trees) > 0:
				t.Nontrivial = true
				op := drawTreeOp(s)
				ti, tj := s.Choose(len(c.trees)), s.Choose(len(c.trees))
				a, b := s.Choose(40), s.Choose(40)
				what = fmt.Sprintf("%s on element %d of tree %d (other: %d of %d)", op.name, a, ti, b, tj)
				el, other := at(c.trees[ti], a), at(c.trees[tj], b)
				if op.name == "JoinScope" && len(c.scopes) < 12 {
					from := &el.Scope
					if n := len(c.scopes); n > 0 && s.Choose(2) == 1 {
						from = c.scopes[s.Choose(n)]
					}
					j := from.JoinScope(&other.Scope)
					c.scopes = append(c.scopes, j)
					c.reads = append(c.reads, scopeString(j))
				}
				r1 := op.run(el, other)
				if ok = expect(what, r1, func() string { return r1 }); ok {
					r2 := op.run(el, other)
					ok = expect(what+" ", r2, func() string { return r1 })
				}
			default:
				what = "nothing"
			}
		})
		simrt.MapOrder(false)
		simrt.Note(hash(what))
		t.Descf("  %s", what)
		if len(t.Fails) > 0 || !ok || !c.check(what) {
			return
		}
	}
}

func ascii(b []byte) bool {
	for _, c := range b {
		if c >= 0x80 {
			return false
		}
	}
	return !bytes.Contains(b, []byte("encoding="))
}
