package scen

import (
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// C16: histories of lookups on one generation result, under permuted map
// iteration, with the generation of source between them.  Every answer must be
// the one that a fresh result gives to its first lookup, the source must be
// the one that a result gives that nobody looked anything up in, and a type
// that the source declares has the identifier it is declared with.
func init() { register("C16", 60e6, c16) }

func sourceOf(code *xsdgen.Code) (string, error) {
	f, err := code.GenAST()
	if err != nil {
		return "", err
	}
	b, err := gen.FormattedSource(f, "fixme.go")
	return string(b), err
}

// declaredTypes returns the type identifiers that a Go source declares.
func declaredTypes(src string) (map[string]bool, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		return nil, err
	}
	out := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.TYPE {
			for _, sp := range g.Specs {
				out[sp.(*ast.TypeSpec).Name.Name] = true
			}
		}
	}
	return out, nil
}

type lookup struct {
	doc  bool // DocType of name.Space
	name xml.Name
}

func (l lookup) run(code *xsdgen.Code) string {
	if !l.doc {
		return code.NameOf(l.name)
	}
	c, ok := code.DocType(l.name.Space)
	if !ok {
		return "no document type"
	}
	var els []string
	for _, e := range c.Elements {
		els = append(els, fmt.Sprint(e.Name, " ", code.NameOf(xsd.XMLName(e.Type)))) // as wsdlgen asks
	}
	sort.Strings(els)
	return strings.Join(els, "\n")
}

func c16(t *T) {
	s := simrt.S("c16")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	var set DocSet
	switch s.Choose(8) {
	case 6:
		set = genWSDL("wsdl", genOpts{maxDocs: 2, maxTypes: 6, soap: true})
	case 7:
		set = t.corpusSet("corpus", 12000, nil)
	default:
		set = genXSD("xsd", genOpts{maxDocs: 3, maxTypes: 10, split: true, soap: true})
	}
	o := drawOpts("opts", set)
	t.Case(set.ident(), o)
	t.Descf("input %s, options %s", set.Kind, o)
	for _, d := range set.Docs {
		t.Descf("  %s: %s", d.Name, clip(d.Data))
	}
	build := func() (*xsdgen.Code, error) { return o.xsdConfig(0).GenCode(set.Bytes()...) }
	// what can be asked for
	var all []lookup
	var src string
	var ids map[string]bool
	declaredBy := map[xml.Name]string{}
	o1 := Outcome{}
	t.Sim(func() {
		o1 = Try(func() (string, error) {
			code, err := build()
			if err != nil {
				return "", err
			}
			if src, err = sourceOf(code); err != nil {
				return "", err
			}
			if ids, err = declaredTypes(src); err != nil {
				return "", err
			}
			ss, err := xsd.Parse(set.Bytes()...)
			if err != nil {
				return "", err
			}
			decl := declaredIn(set.Bytes()...)
			cfg := o.xsdConfig(0)
			ident := map[string][]xml.Name{}
			for _, sc := range ss {
				for n, ty := range sc.Types {
					if _, ok := ty.(xsd.Builtin); ok {
						continue
					}
					all = append(all, lookup{name: n})
					id := cfg.NameOf(n)
					ident[id] = append(ident[id], n)
				}
				all = append(all, lookup{doc: true, name: xml.Name{Space: sc.TargetNS}})
			}
			for id, ns := range ident {
				if len(ns) == 1 && ids[id] && decl.types[ns[0]] && primary(o, ns[0].Space) {
					declaredBy[ns[0]] = id
				}
			}
			return src, nil
		})
	})
	if o1.Failed() {
		t.Count("inputs that fail", 1)
		return
	}
	sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
	for _, b := range []string{"string", "int", "anyType", "dateTime", "NMTOKENS", "NOTATION", "QName", "base64Binary", "nonesuch"} {
		all = append(all, lookup{name: xml.Name{Space: xsNS, Local: b}})
	}
	all = append(all, lookup{name: xml.Name{Space: "urn:d0", Local: "no such type"}}, lookup{name: xml.Name{Local: names[0]}},
		lookup{doc: true, name: xml.Name{Space: "urn:none"}}, lookup{name: xml.Name{Space: "urn:d0", Local: "_anon1"}})
	n := 2 + s.Choose(10)
	pool := make([]lookup, n)
	for i := range pool {
		pool[i] = all[s.Choose(len(all))]
		if s.Chance(1, 3) && len(declaredBy) > 0 {
			// one that the source declares
			var ds []xml.Name
			for d := range declaredBy {
				ds = append(ds, d)
			}
			sort.Slice(ds, func(i, j int) bool { return fmt.Sprint(ds[i]) < fmt.Sprint(ds[j]) })
			pool[i] = lookup{name: ds[s.Choose(len(ds))]}
		} else if i > 0 && s.Chance(1, 4) {
			// a name close to one that is asked for as well
			l := pool[s.Choose(i)]
			switch s.Choose(4) {
			case 0, 1:
				l = lookup{name: xml.Name{Local: l.name.Local}}
			case 2:
				l = lookup{name: xml.Name{Space: xsNS, Local: l.name.Local}}
			case 3:
				l = lookup{name: xml.Name{Space: "urn:d0", Local: l.name.Local}}
			}
			pool[i] = l
		}
	}
	want := map[lookup]Outcome{}
	for _, l := range pool {
		l := l
		if _, ok := want[l]; ok {
			continue
		}
		simrt.Restart()
		t.Sim(func() {
			want[l] = Try(func() (string, error) {
				code, err := build()
				if err != nil {
					return "", err
				}
				return l.run(code), nil
			})
		})
		w := want[l]
		t.Descf("  first lookup of %v: %q (%v)", l, w.Val, w.Panic)
		if id, ok := declaredBy[l.name]; ok && !l.doc {
			t.Count("lookups of declared types", 1)
			if w.Val != id {
				t.Fail("answer is not the declared identifier", "%v is declared as %s, NameOf answers %q", l.name, id, w.Val)
				return
			}
		}
	}
	// the history
	simrt.SetProfile(s.Choose(4))
	perm := s.Chance(3, 4)
	simrt.MapOrder(perm)
	before := simrt.MapsPermuted()
	var code *xsdgen.Code
	var err error
	t.Sim(func() { code, err = build() })
	if err != nil {
		t.Fail("generation fails", "the second generation from the same documents fails: %v", err)
		return
	}
	steps := 4 + s.Choose(20)
	for i := 0; i < steps; i++ {
		switch s.Choose(8) {
		case 0: // the owner generates
			var got Outcome
			t.Sim(func() { got = Try(func() (string, error) { return sourceOf(code) }) })
			t.Case("source")
			t.Count("sources generated in a history", 1)
			if got.Failed() || got.Val != src {
				t.Fail("lookups change the source", "source generated after %d steps of lookups: %s", i, outcomeDiff(Outcome{Val: src}, got))
				return
			}
		default:
			l := pool[s.Choose(n)]
			var got Outcome
			t.Sim(func() { got = Try(func() (string, error) { return l.run(code), nil }) })
			t.Case(l)
			t.Count("lookups", 1)
			simrt.Note(hash(got.Val))
			w := want[l]
			if (got.Panic != nil) != (w.Panic != nil) || got.Val != w.Val {
				t.Fail("answers differ", "step %d: %v gives %q (panic %v), a fresh result gives %q (panic %v)", i, l, got.Val, got.Panic, w.Val, w.Panic)
				return
			}
			if i > 0 {
				t.Nontrivial = true
			}
		}
	}
	simrt.MapOrder(false)
	if p := simrt.MapsPermuted() - before; p > 0 {
		t.Faults["permuted map iterations"] += p
	}
}

// primary reports whether types of the namespace are generated.
func primary(o optSpec, ns string) bool {
	if o.ns == nil {
		return true
	}
	for _, n := range o.ns {
		if n == ns {
			return true
		}
	}
	return false
}
