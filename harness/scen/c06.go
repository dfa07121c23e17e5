package scen

import (
	"fmt"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// C06: pipelines that share nothing but the package-level state of the library
// run interleaved at statement granularity; each must obtain what it obtains
// alone.  Reference results are computed in the same process before or, so
// that lazily built state is first touched by the concurrent phase, after it.
func init() { register("C06", 120e6, c06) }

type pipeline struct {
	name  string
	set   DocSet
	files []string
	o     optSpec
	kind  int
	nm    string
}

func (p *pipeline) run() Outcome {
	switch p.kind {
	case 0:
		return generate(p.set, p.files, p.o, 0)
	case 1:
		return parseXSD(p.set.Bytes()...)
	case 2:
		if p.set.WSDL {
			return parseWSDL(p.set.Bytes()[0])
		}
		return Try(func() (string, error) {
			els, err := xsd.Normalize(p.set.Bytes()...)
			s := ""
			for i, el := range els {
				if i < 3 {
					s += dumpTree(el)
				}
			}
			return s, err
		})
	case 3:
		return Try(func() (string, error) {
			s := ""
			for _, d := range p.set.Bytes() {
				el, err := xmltree.Parse(d)
				if err != nil {
					return "", err
				}
				el.SetAttr("", "id", "1")
				s += fmt.Sprint(len(el.Search("", p.nm)), xmltree.Equal(el, el))
				s += string(xmltree.Marshal(el)) + dumpTree(el)
			}
			return s, nil
		})
	case 4:
		return Try(func() (string, error) {
			s := ""
			for _, d := range p.set.Bytes() {
				r, err := xsd.Imports(d)
				s += fmt.Sprint(r, err)
			}
			return s, nil
		})
	default:
		return Try(func() (string, error) {
			if p.set.WSDL {
				return "", nil
			}
			cfg := p.o.xsdConfig(0)
			if p.o.ns == nil {
				cfg.Option(xsdgen.Namespaces("urn:d0"))
			}
			code, err := cfg.GenCode(p.set.Bytes()...)
			if err != nil {
				return "", err
			}
			f, err := code.GenAST()
			if err != nil {
				return "", err
			}
			s := fmt.Sprint(len(f.Decls))
			for _, n := range names {
				s += " " + code.NameOf(xsdName(n))
			}
			return s, nil
		})
	}
}

func c06(t *T) {
	s := simrt.S("c06")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	nt := 2 + s.Choose(3)
	var ps []*pipeline
	for i := 0; i < nt; i++ {
		p := &pipeline{kind: s.Choose(6), nm: names[s.Choose(len(names))]}
		st := fmt.Sprintf("p%d.", i)
		switch s.Choose(8) {
		case 0:
			if i > 0 { // the same documents in another pipeline
				p.set = ps[0].set
				break
			}
			fallthrough
		default:
			p.set = genXSD(st+"xsd", genOpts{maxDocs: 2, maxTypes: 5, split: true, soap: true})
		case 5, 6:
			p.set = genWSDL(st+"wsdl", genOpts{maxDocs: 2, maxTypes: 4, soap: true})
		case 7:
			p.set = t.corpusSet(st+"corpus", 8000, nil)
		}
		if s.Chance(1, 10) {
			d := &p.set.Docs[0]
			d.Data = d.Data[:s.Choose(len(d.Data))]
			t.Fault("document cut off")
		} else if s.Chance(1, 8) && ascii(p.set.Docs[0].Data) {
			p.set.Docs = append([]Doc(nil), p.set.Docs...)
			p.set.Docs[0].Data = recode(s, p.set.Docs[0].Data)
			t.Fault("other encoding")
		}
		p.o = drawOpts(st+"opts", p.set)
		p.files = t.writeSet(fmt.Sprintf("p%d", i), p.set)
		p.name = fmt.Sprintf("pipeline %d, kind %d, %s", i, p.kind, p.set.Kind)
		t.Case(p.kind, p.set.ident(), p.o)
		t.Descf("%s: options %s", p.name, p.o)
		for _, d := range p.set.Docs {
			t.Descf("  %s: %s", d.Name, clip(d.Data))
		}
		ps = append(ps, p)
	}
	want, got := make([]Outcome, nt), make([]Outcome, nt)
	alone := func() {
		for i := range ps {
			i := i
			simrt.Restart() // alone in its process
			t.Sim(func() { want[i] = ps[i].run() })
		}
	}
	after := s.Choose(2) == 1
	if !after {
		alone()
	}
	if !after && s.Chance(1, 2) {
		t.restart()
	}
	var fns []func()
	for i := range ps {
		i := i
		fns = append(fns, func() { got[i] = ps[i].run() })
	}
	sw := simrt.Switches()
	simrt.SwitchRate([]int{1, 4, 16, 100}[s.Choose(4)])
	simrt.MapOrder(s.Choose(3) == 2)
	if s.Chance(1, 2) && simrt.Focus("", s.Chance(1, 2), s.Choose(1<<16)) {
		simrt.SwitchRate(1)
		t.Count("runs with a focus", 1)
	}
	t.Sim(fns...)
	simrt.Unfocus()
	simrt.MapOrder(false)
	simrt.SwitchRate(64)
	if simrt.Switches() > sw {
		t.Nontrivial = true
	}
	if after {
		alone()
	}
	for i := range ps {
		simrt.Note(hash(got[i].Val))
		t.Descf("  %s: %s", ps[i].name, got[i])
		if !got[i].Same(want[i]) {
			t.Fail("result differs", "%s, with %d others: %s\n%s", ps[i].name, nt-1, outcomeDiff(want[i], got[i]), got[i].Stack)
			return
		}
		if got[i].Failed() {
			t.Count("pipelines that fail", 1)
		} else {
			t.Count("pipelines that succeed", 1)
		}
	}
}
