package scen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
	"golang.org/x/net/html/charset"
)

// C21: documents that storage or transfer damaged end in a result or an
// error, never in a panic or an endless loop; what is no longer well-formed
// is an error; and the process goes on as if nothing had happened.
func init() { register("C21", 100e6, c21) }

type consumer struct {
	name string
	run  func() Outcome
}

// wellFormed reads a document with the standard decoder up to the end of its
// document element; it is not sure of documents in an encoding that is not
// known.
func wellFormed(b []byte) (ok, sure bool) {
	d := xml.NewDecoder(bytes.NewReader(b))
	known := true
	declared := false
	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
		if declared { // characters can grow with each conversion
			known = false
			return nil, io.ErrUnexpectedEOF
		}
		declared = true
		dec, err := charset.NewReaderLabel(label, r)
		known = err == nil
		return dec, err
	}
	depth := 0
	for {
		tok, err := d.Token()
		if err != nil {
			return false, known
		}
		switch tok.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return true, true
			}
		}
	}
}

func namespacesOf(docs [][]byte) []string {
	var out []string
	seen := map[string]bool{}
	for _, d := range docs {
		for _, sp := range spans(d, spanTag, 0) {
			tag := string(d[sp[0]:sp[1]])
			i := strings.Index(tag, "targetNamespace=")
			if i < 0 || i+18 > len(tag) {
				continue
			}
			v := tag[i+17:]
			if j := strings.IndexAny(v, "\"'"); j > 0 && !seen[v[:j]] {
				seen[v[:j]] = true
				out = append(out, v[:j])
			}
		}
	}
	return out
}

// consumers lists what can be done with documents.
func consumers(s *simrt.Stream, set DocSet, files []string, o optSpec) []consumer {
	docs := set.Bytes()
	var out []consumer
	add := func(name string, f func() (string, error)) {
		out = append(out, consumer{name, func() Outcome { return Try(f) }})
	}
	var ops []treeOp
	var els []int
	for i := 0; i < 4; i++ {
		ops = append(ops, drawTreeOp(s))
		els = append(els, s.Choose(50))
	}
	for i, d := range docs {
		d := d
		add(fmt.Sprintf("xmltree.Parse(%s)", set.Docs[i].Name), func() (string, error) {
			root, err := xmltree.Parse(d)
			if err != nil {
				return "", err
			}
			var b strings.Builder
			b.WriteString(dumpTree(root))
			for j, op := range ops {
				fmt.Fprintf(&b, "%s: %s\n", op.name, op.run(at(root, els[j]), at(root, els[(j+1)%len(els)])))
			}
			b.Write(xmltree.Marshal(root))
			return b.String(), nil
		})
		add(fmt.Sprintf("xsd.Imports(%s)", set.Docs[i].Name), func() (string, error) {
			r, err := xsd.Imports(d)
			return fmt.Sprintf("%q", r), err
		})
		if set.WSDL {
			add(fmt.Sprintf("wsdl.Parse(%s)", set.Docs[i].Name), func() (string, error) {
				_, err := wsdl.Parse(d)
				if err != nil {
					return "", err
				}
				o := parseWSDL(d)
				return o.Val, o.Err
			})
		}
	}
	out = append(out, consumer{"xsd.Parse", func() Outcome { return parseXSD(docs...) }})
	add("xsd.Normalize", func() (string, error) {
		els, err := xsd.Normalize(docs...)
		var b strings.Builder
		for i, el := range els {
			if i < len(docs) {
				b.WriteString(dumpTree(el))
			}
		}
		return b.String(), err
	})
	out = append(out, consumer{"GenSource", func() Outcome { return generate(set, files, o, 0) }})
	if !set.WSDL {
		add("GenCode", func() (string, error) {
			cfg := o.xsdConfig(0)
			cfg.Option(xsdgen.Namespaces(namespacesOf(docs)...))
			code, err := cfg.GenCode(docs...)
			if err != nil {
				return "", err
			}
			f, err := code.GenAST()
			if err != nil {
				return "", err
			}
			v := fmt.Sprint(len(f.Decls))
			for _, n := range names {
				v += " " + code.NameOf(xsdName(n))
			}
			return v, nil
		})
	}
	return out
}

func c21(t *T) {
	s := simrt.S("c21")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	draw := func(tag string) DocSet {
		switch s.Choose(8) {
		case 5, 6:
			return genWSDL(tag+"wsdl", genOpts{maxDocs: 2, maxTypes: 6, soap: true})
		case 7:
			return t.corpusSet(tag+"corpus", 30000, nil)
		case 4:
			return DocSet{Kind: "xml", Docs: []Doc{{Name: "x.xml", Data: genXML(tag+"xml", 12)}}}
		}
		return genXSD(tag+"xsd", genOpts{maxDocs: 3, maxTypes: 8, split: true, soap: true})
	}
	set, other := draw("d."), draw("o.")
	for i := range set.Docs {
		if s.Chance(1, 6) {
			set.Docs[i].Data = recode(s, set.Docs[i].Data)
		}
	}
	o := drawOpts("opts", set)
	if !set.WSDL && s.Chance(1, 2) {
		o.ns = namespacesOf(set.Bytes())
	}
	// a neighbour that the same process handles
	near := genXSD("n.xsd", genOpts{maxDocs: 2, maxTypes: 4, soap: true})
	no := drawOpts("n.opts", near)
	nfiles := t.writeSet("near", near)
	nc := consumers(simrt.S("n.ops"), near, nfiles, no)
	nk := s.Choose(len(nc))
	neighbour := nc[nk]
	if s.Chance(1, 3) {
		neighbour = nc[len(nc)-2]
	}
	var nwant Outcome
	simrt.Restart()
	t.Sim(func() { nwant = neighbour.run() })

	t.Case(set.ident())
	t.Descf("%s, options %s; neighbour %s", set.Kind, o, neighbour.name)
	good := set
	rounds := 2 + s.Choose(4)
	for r := 0; r < rounds; r++ {
		if s.Chance(1, 4) {
			t.restart()
		}
		set := good
		set.Docs = append([]Doc(nil), good.Docs...)
		var gone []string // documents that are certainly not well-formed
		hits := 1 + s.Choose(3)
		for h := 0; h < hits; h++ {
			d := &set.Docs[s.Choose(len(set.Docs))]
			d.Data = t.damage(s, d.Data, other.Docs[s.Choose(len(other.Docs))].Data)
		}
		for _, d := range set.Docs {
			if ok, sure := wellFormed(d.Data); sure && !ok {
				gone = append(gone, d.Name)
			}
			t.Case(string(d.Data))
			t.Descf(" %s: %s", d.Name, clip(d.Data))
		}
		files := t.writeSet(fmt.Sprintf("r%d", r), set)
		cs := consumers(s, set, files, o)
		if r > 0 { // not all of them each time
			n := 1 + s.Choose(3)
			var some []consumer
			for i := 0; i < n; i++ {
				some = append(some, cs[s.Choose(len(cs))])
			}
			cs = some
		}
		simrt.MapOrder(s.Choose(3) == 2)
		var ngot Outcome
		outs := make([]Outcome, len(cs))
		work := func() {
			for i, c := range cs {
				outs[i] = c.run()
			}
		}
		if s.Chance(1, 3) {
			simrt.SwitchRate([]int{1, 4, 16, 100}[s.Choose(4)])
			t.Sim(work, func() { ngot = neighbour.run() })
			simrt.SwitchRate(64)
			t.Fault("damaged documents read while others are")
		} else {
			for i, c := range cs {
				i, c := i, c
				t.Sim(func() { outs[i] = c.run() })
			}
			t.Sim(func() { ngot = neighbour.run() })
		}
		simrt.MapOrder(false)
		for i, c := range cs {
			simrt.Note(hash(outs[i].Val))
			t.Descf("  %s: %s", c.name, outs[i])
			if outs[i].Panic != nil {
				t.Fail("panic", "%s of a damaged document panics: %v\n%s", c.name, outs[i].Panic, outs[i].Stack)
				return
			}
			if outs[i].Err != nil {
				t.Count("damaged documents rejected", 1)
				continue
			}
			t.Count("damaged documents accepted", 1)
			bad := ""
			for _, g := range gone {
				if !strings.Contains(c.name, "(") || strings.Contains(c.name, "("+g+")") {
					bad = g
				}
			}
			if bad != "" {
				t.Fail("malformed document accepted", "%s succeeds, though %s is not well-formed", c.name, bad)
				return
			}
		}
		if len(gone) == 0 {
			t.Nontrivial = true
			t.Count("damages that leave well-formed documents", 1)
		} else {
			t.Count("damages that are not well-formed", 1)
		}
		if !ngot.Same(nwant) {
			t.Fail("other work disturbed", "%s of undamaged documents after a damaged one: %s", neighbour.name, outcomeDiff(nwant, ngot))
			return
		}
	}
}
