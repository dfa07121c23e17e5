package scen

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// C11: a configuration goes through a history of generations, with success and
// with failures, of options that are applied, undone and applied again, while
// a second configuration made from the same option values is in use too.  Each
// generation must give what a fresh configuration with the options in force
// gives in a fresh process.
func init() { register("C11", 60e6, c11) }

// oneOpt is a single option of either kind.
type oneOpt struct {
	name string
	kind int
	mk   func() (xsdgen.Option, wsdlgen.Option)
}

func markTypes(doc string) func(xsd.Schema, xsd.Type) xsd.Type {
	return func(s xsd.Schema, t xsd.Type) xsd.Type {
		if c, ok := t.(*xsd.ComplexType); ok && !strings.Contains(c.Doc, doc) {
			c.Doc += doc
		}
		return t
	}
}

// drawOption draws an option that may be applied and undone later.
// If stack is not empty, the option may be one of the same kind as one of
// those in force, with other arguments.
func drawOption(s *simrt.Stream, isWSDL bool, stack []held) oneOpt {
	k := s.Choose(20)
	if isWSDL && s.Chance(1, 3) {
		k = 20 + s.Choose(7)
	}
	if len(stack) > 0 && s.Chance(1, 2) {
		k = stack[s.Choose(len(stack))].opt.kind
	}
	x := func(name string, f func() xsdgen.Option) oneOpt {
		return oneOpt{name, k, func() (xsdgen.Option, wsdlgen.Option) { return f(), nil }}
	}
	w := func(name string, f func() wsdlgen.Option) oneOpt {
		return oneOpt{name, k, func() (xsdgen.Option, wsdlgen.Option) { return nil, f() }}
	}
	n1, n2 := names[s.Choose(len(names))], names[s.Choose(len(names))]
	ns := fmt.Sprintf("urn:d%d", s.Choose(3))
	r := drawReplace(s)[0]
	v := s.Choose(5)
	switch k {
	case 0:
		return x("IgnoreAttributes(id,"+n1+")", func() xsdgen.Option { return xsdgen.IgnoreAttributes("id", n1) })
	case 1, 2:
		return x("IgnoreElements("+n1+","+n2+")", func() xsdgen.Option { return xsdgen.IgnoreElements(n1, n2) })
	case 3:
		return x("OnlyTypes(^"+n1+","+n2+")", func() xsdgen.Option { return xsdgen.OnlyTypes("^"+n1, n2) })
	case 4:
		return x("OnlyTypes([)", func() xsdgen.Option { return xsdgen.OnlyTypes("[") })
	case 5, 6:
		return x("AllowType("+ns+" "+n1+")", func() xsdgen.Option { return xsdgen.AllowType(xml.Name{Space: ns, Local: n1}) })
	case 7, 8, 9:
		return x(fmt.Sprintf("Replace(%q,%q)", r[0], r[1]), func() xsdgen.Option { return xsdgen.Replace(r[0], r[1]) })
	case 10:
		return x("Replace([)", func() xsdgen.Option { return xsdgen.Replace("[", "x") })
	case 11:
		return x("PackageName("+n1+")", func() xsdgen.Option {
			return xsdgen.PackageName("p" + strings.ToLower(strings.NewReplacer(".", "", "-", "", "_", "").Replace(n1)))
		})
	case 12:
		return x("FollowImports", func() xsdgen.Option { return xsdgen.FollowImports(v > 1) })
	case 13:
		return x("UseFieldNames", xsdgen.UseFieldNames)
	case 14:
		return x("HandleSOAPArrayType", xsdgen.HandleSOAPArrayType)
	case 15:
		return x("SOAPArrayAsSlice", xsdgen.SOAPArrayAsSlice)
	case 16:
		list := []string{ns}
		if v == 4 {
			list = append(list, fmt.Sprintf("urn:d%d", s.Choose(3)))
		}
		return x(fmt.Sprintf("Namespaces(%s)", list), func() xsdgen.Option { return xsdgen.Namespaces(list...) })
	case 17:
		return x("ProcessTypes", func() xsdgen.Option { return xsdgen.ProcessTypes(markTypes(" processed " + n1)) })
	case 18:
		return x("LogLevel", func() xsdgen.Option { return xsdgen.LogLevel(v + 1) })
	case 19:
		return x("LogOutput", func() xsdgen.Option { return xsdgen.LogOutput(&memLog{}) })
	case 20:
		return w("wsdlgen.PackageName", func() wsdlgen.Option { return wsdlgen.PackageName("q" + fmt.Sprint(v)) })
	case 21:
		return w("wsdlgen.PackageComment", func() wsdlgen.Option { return wsdlgen.PackageComment("comment " + n1) })
	case 22:
		return w(fmt.Sprintf("wsdlgen.InputThreshold(%d)", v), func() wsdlgen.Option { return wsdlgen.InputThreshold(v) })
	case 23:
		return w(fmt.Sprintf("wsdlgen.OutputThreshold(%d)", v), func() wsdlgen.Option { return wsdlgen.OutputThreshold(v) })
	case 24:
		return w("wsdlgen.OnlyPorts", func() wsdlgen.Option { return wsdlgen.OnlyPorts(fmt.Sprintf("Port%d", v), n1) })
	case 25:
		return w("wsdlgen.LogLevel", func() wsdlgen.Option { return wsdlgen.LogLevel(v + 1) })
	default:
		return w("wsdlgen.LogOutput", func() wsdlgen.Option { return wsdlgen.LogOutput(&memLog{}) })
	}
}

// anyConfig is a configuration of either package.
type anyConfig struct {
	x *xsdgen.Config
	w *wsdlgen.Config
}

type anyUndo struct {
	x xsdgen.Option
	w wsdlgen.Option
}

// apply applies an option and returns its undo option.
func (c anyConfig) apply(x xsdgen.Option, w wsdlgen.Option) anyUndo {
	switch {
	case w != nil:
		return anyUndo{w: c.w.Option(w)}
	case c.w != nil:
		return anyUndo{x: c.w.XSDOption(x)}
	}
	return anyUndo{x: c.x.Option(x)}
}

func (c anyConfig) generate(set DocSet, files []string, how int) Outcome {
	if c.x != nil && how == 1 {
		// the same by way of GenCode
		return Try(func() (string, error) {
			code, err := c.x.GenCode(set.Bytes()...)
			if err != nil {
				return "", err
			}
			return sourceOf(code)
		})
	}
	return genWith(set, files, c.x, c.w)
}

// held is an option in force.
type held struct {
	opt  oneOpt
	undo anyUndo
}

func c11(t *T) {
	s := simrt.S("c11")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	isWSDL := s.Chance(1, 3)
	var sets []DocSet
	var files [][]string
	n := 1 + s.Choose(3)
	// The sets may be versions of the same files.
	same := s.Chance(1, 2)
	for i := 0; i < n; i++ {
		var set DocSet
		st := fmt.Sprintf("s%d.", i)
		switch {
		case isWSDL:
			set = genWSDL(st+"wsdl", genOpts{maxDocs: 2, maxTypes: 5, soap: true})
		case s.Choose(8) == 7:
			set = t.corpusSet(st+"corpus", 12000, func(n string) bool { return !strings.HasSuffix(n, ".wsdl") })
		default:
			set = genXSD(st+"xsd", genOpts{maxDocs: 2, maxTypes: 6, split: true, soap: true})
		}
		switch s.Choose(8) {
		case 7: // an input that fails
			k := s.Choose(len(set.Docs))
			set.Docs = append([]Doc(nil), set.Docs...)
			set.Docs[k].Data = set.Docs[k].Data[:s.Choose(len(set.Docs[k].Data))]
			t.Fault("document cut off")
		case 6: // documents lost on the way
			if len(set.Docs) > 1 {
				set.Docs = set.Docs[:len(set.Docs)-1]
				t.Fault("document missing")
			}
		}
		t.Case(set.ident())
		dir := st
		if same {
			dir = "in"
		}
		fs := t.writeSet(dir, set)
		if s.Chance(1, 10) {
			fs = append(fs[:len(fs):len(fs)], fs[0]+".missing")
			t.Fault("file missing")
		}
		sets, files = append(sets, set), append(files, fs)
		t.Descf("set %d: %s", i, set.Kind)
		for _, d := range set.Docs {
			t.Descf("  %s: %s", d.Name, clip(d.Data))
		}
	}
	o := drawOpts("opts", sets[0])
	if s.Chance(2, 3) {
		o.ns = nil
	}
	t.Case(o)
	t.Descf("options %s; versions of the same files: %v", o, same)
	fresh := func() anyConfig {
		if isWSDL {
			return anyConfig{w: o.wsdlConfig(0)}
		}
		return anyConfig{x: o.xsdConfig(0)}
	}
	var cfg, second anyConfig
	var stack, stack2 []held
	var refs = map[string]Outcome{}
	write := func(k int) {
		if same {
			t.writeSet("in", sets[k])
		}
	}
	reference := func(k, how int, stack []held) Outcome {
		key := fmt.Sprint(k, how)
		for _, h := range stack {
			key += " " + h.opt.name
		}
		if r, ok := refs[key]; ok {
			return r
		}
		var r Outcome
		simrt.MapOrder(false)
		write(k)
		t.Sim(func() {
			c := fresh()
			for _, h := range stack {
				c.apply(h.opt.mk())
			}
			r = c.generate(sets[k], files[k], how)
		})
		refs[key] = r
		return r
	}
	// What a step generates is compared with references computed in fresh
	// processes of their own after the history is over.
	type result struct {
		step     int
		desc     string
		k, how   int
		stack    []held
		got      Outcome
		isSecond bool
	}
	var results []result
	t.Sim(func() { cfg, second = fresh(), fresh() })
	steps := 3 + s.Choose(12)
	for i := 0; i < steps; i++ {
		simrt.SetProfile(s.Choose(3))
		perm := s.Chance(1, 2)
		switch op := s.Choose(11); {
		case op < 3 && len(stack) < 5: // apply an option
			opt := drawOption(s, isWSDL, stack)
			on2 := s.Chance(1, 3)
			t.Descf("  %d: apply %s", i, opt.name)
			t.Case("apply", opt.name)
			t.Sim(func() {
				x, w := opt.mk()
				stack = append(stack, held{opt, cfg.apply(x, w)})
				if on2 {
					// the same option value for another configuration
					stack2 = append(stack2, held{opt, second.apply(x, w)})
				}
			})
		case op < 6 && len(stack) > 0: // undo the latest one
			h := stack[len(stack)-1]
			stack = stack[: len(stack)-1 : len(stack)-1]
			redo := s.Choose(3)
			t.Descf("  %d: undo %s, and %d times redo and undo it", i, h.opt.name, redo)
			t.Case("undo", redo)
			t.Sim(func() {
				u := cfg.apply(h.undo.x, h.undo.w)
				for ; redo > 0; redo-- {
					u = cfg.apply(u.x, u.w)
					u = cfg.apply(u.x, u.w)
				}
			})
			t.Fault("option undone")
		case op < 7 && len(stack) > 0: // undo and redo
			h := &stack[len(stack)-1]
			t.Descf("  %d: undo and redo %s", i, h.opt.name)
			t.Case("redo")
			t.Sim(func() {
				u := cfg.apply(h.undo.x, h.undo.w)
				h.undo = cfg.apply(u.x, u.w)
			})
			t.Fault("option undone")
		default: // generate
			k := s.Choose(n)
			how := 0
			if !isWSDL && s.Chance(1, 4) {
				how = 1
			}
			c, st, name := cfg, stack, ""
			if s.Chance(1, 4) {
				c, st, name = second, stack2, " with a second configuration"
			}
			var got Outcome
			before := simrt.MapsPermuted()
			write(k)
			t.Sim(func() {
				simrt.MapOrder(perm)
				got = c.generate(sets[k], files[k], how)
			})
			simrt.MapOrder(false)
			if p := simrt.MapsPermuted() - before; p > 0 {
				t.Faults["permuted map iterations"] += p
			}
			t.Descf("  %d: generate from set %d%s: %s", i, k, name, got)
			t.Case("gen", k, how, name)
			simrt.Note(hash(got.Val))
			results = append(results, result{i, name, k, how, append([]held(nil), st...), got, name != ""})
			if got.Failed() {
				t.Fault("failed generation in a history")
			}
		}
	}
	simrt.SetProfile(0)
	for j, r := range results {
		simrt.Restart()
		want := reference(r.k, r.how, r.stack)
		if j > 0 && !want.Failed() {
			t.Nontrivial = true
		}
		if want.Failed() {
			t.Count("generations that fail", 1)
		} else {
			t.Count("generations that succeed", 1)
		}
		if !r.got.Same(want) {
			var opts []string
			for _, h := range r.stack {
				opts = append(opts, h.opt.name)
			}
			t.Fail("configuration remembers", "step %d%s: source of set %d with %v applied since, compared with that of a fresh configuration: %s", r.step, r.desc, r.k, opts, outcomeDiff(want, r.got))
			return
		}
	}
}
