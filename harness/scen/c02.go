package scen

import (
	"fmt"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

// C02: parsing is a function of the documents.  Histories of parses of the
// documents of several sets, each repeated under permuted map iteration,
// after and between parses of other documents, from reused buffers, and after
// earlier results were modified by their owner.
func init() { register("C02", 60e6, c02) }

// parseAll applies the parsing functions that make sense for a set.
func parseAll(set DocSet, docs [][]byte) Outcome {
	var b strings.Builder
	add := func(what string, o Outcome) {
		if o.Failed() {
			fmt.Fprintf(&b, "== %s failed\n", what)
		} else {
			fmt.Fprintf(&b, "== %s\n%s", what, o.Val)
		}
	}
	add("xsd.Parse", parseXSD(docs...))
	add("xsd.Normalize", Try(func() (string, error) {
		els, err := xsd.Normalize(docs...)
		if err != nil {
			return "", err
		}
		var b strings.Builder
		for _, el := range els {
			if el.Attr("", "targetNamespace") == "" || len(b.String()) < 1<<17 {
				b.WriteString(dumpTree(el))
			}
		}
		return b.String(), nil
	}))
	for i, d := range docs {
		d := d
		add(fmt.Sprintf("xsd.Imports %d", i), Try(func() (string, error) {
			r, err := xsd.Imports(d)
			return fmt.Sprintf("%q\n", r), err
		}))
	}
	if set.WSDL {
		add("wsdl.Parse", parseWSDL(docs[0]))
	}
	return Outcome{Val: b.String()}
}

func c02(t *T) {
	n := 1 + choose("sets", 3)
	var sets []DocSet
	var refs []Outcome
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	for i := 0; i < n; i++ {
		var set DocSet
		st := fmt.Sprintf("s%d.", i)
		switch choose("kind", 8) {
		case 5, 6:
			set = genWSDL(st+"wsdl", genOpts{maxDocs: 2, maxTypes: 8, soap: true})
		case 7:
			set = t.corpusSet(st+"corpus", 30000, nil)
		default:
			set = genXSD(st+"xsd", genOpts{maxDocs: 3, maxTypes: 10, split: true, soap: true})
		}
		if choose("cut", 8) == 7 {
			// an input that fails
			d := &set.Docs[choose("cut", len(set.Docs))]
			d.Data = d.Data[:choose("cut", len(d.Data))]
			t.Fault("document cut off")
		}
		t.Case(set.ident())
		sets = append(sets, set)
		t.Descf("set %d: %s", i, set.Kind)
		for _, d := range set.Docs {
			t.Descf("  %s: %s", d.Name, clip(d.Data))
		}
		var ref Outcome
		simrt.Restart() // each reference is a process's first work
		t.Sim(func() { ref = parseAll(set, set.Bytes()) })
		refs = append(refs, ref)
		if strings.HasPrefix(ref.Val, "== xsd.Parse\n") {
			t.Nontrivial = true
			t.Count("sets that parse", 1)
		} else {
			t.Count("sets that fail", 1)
		}
	}
	// one buffer that is reused for all documents
	size := 0
	for _, s := range sets {
		for _, d := range s.Docs {
			if len(d.Data) > size {
				size = len(d.Data)
			}
		}
	}
	shared := make([]byte, size)
	ops := 2 + choose("ops", 4)
	for i := 0; i < ops; i++ {
		if chance("restart", 1, 4) {
			t.restart()
		}
		k := choose("op", n)
		set := sets[k]
		how := choose("how", 6)
		perm := choose("perm", 8) != 7
		simrt.SetProfile(choose("profile", 4))
		simrt.MapOrder(perm)
		before := simrt.MapsPermuted()
		var got, want Outcome
		want = refs[k]
		name := "again"
		switch how {
		default:
			t.Sim(func() { got = parseAll(set, set.Bytes()) })
		case 3: // two parses interleaved
			name = "interleaved with another"
			other := (k + choose("other", n)) % n
			var og Outcome
			t.Sim(
				func() { got = parseAll(set, set.Bytes()) },
				func() { og = parseAll(sets[other], sets[other].Bytes()) })
			t.Fault("interleaved parses")
			if og.Val != refs[other].Val {
				t.Fail("model differs", "set %d parsed while set %d is parsed: %s", other, k, outcomeDiff(refs[other], og))
			}
		case 4: // each document through the same buffer
			name = "through a reused buffer"
			d := set.Docs[choose("doc", len(set.Docs))]
			fresh := append([]byte(nil), d.Data...)
			t.Sim(func() {
				buf := shared[:copy(shared, d.Data)]
				one := DocSet{WSDL: set.WSDL, Docs: []Doc{d}}
				want = parseAll(one, [][]byte{fresh})
				got = parseAll(one, [][]byte{buf})
			})
			t.Fault("buffer reused")
		case 5: // the owner of a result changes it
			name = "after a result was modified"
			t.Sim(func() {
				docs := set.Bytes()
				Try(func() (string, error) {
					ss, err := xsd.Parse(docs...)
					if err != nil {
						return "", err
					}
					spoilSchemas(ss)
					els, err := xsd.Normalize(docs...)
					for _, el := range els {
						spoilTree(el)
					}
					return "", err
				})
				got = parseAll(set, set.Bytes())
			})
			t.Fault("result modified by its owner")
		}
		simrt.MapOrder(false)
		if p := simrt.MapsPermuted() - before; p > 0 {
			t.Faults["permuted map iterations"] += p
		}
		simrt.Note(hash(got.Val))
		t.Descf("  parse set %d %s, permuted %v: %s", k, name, perm, got)
		if got.Val != want.Val {
			t.Fail("model differs", "set %d parsed %s (operation %d, maps permuted %v): %s", k, name, i, perm, diff(want.Val, got.Val))
			return
		}
	}
}

// spoilSchemas changes what a result's owner may change.
func spoilSchemas(ss []xsd.Schema) {
	for i := range ss {
		for k, ty := range ss[i].Types {
			switch ty := ty.(type) {
			case *xsd.ComplexType:
				ty.Elements = append(ty.Elements, xsd.Element{Doc: "spoilt"})
				ty.Doc = "spoilt"
				ty.Base = xsd.Int
				for j := range ty.Elements {
					ty.Elements[j].Type = xsd.Int
					ty.Elements[j].Optional = !ty.Elements[j].Optional
				}
				for j := range ty.Attributes {
					ty.Attributes[j].Type = xsd.Int
					ty.Attributes[j].Name.Local = "spoilt"
				}
			case *xsd.SimpleType:
				ty.Doc = "spoilt"
				ty.List = !ty.List
				ty.Restriction.Enum = append(ty.Restriction.Enum, "spoilt")
			default:
				delete(ss[i].Types, k)
			}
		}
		ss[i].TargetNS = "spoilt"
	}
}

func spoilTree(root *xmltree.Element) {
	for _, el := range append(root.Flatten(), root) {
		el.SetAttr("", "name", "spoilt")
		el.Name.Local = "spoilt"
		el.Children = nil
	}
}
