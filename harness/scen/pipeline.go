package scen

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"encoding/xml"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// optSpec is a drawn set of generator options, applicable to any number of
// configurations.
type optSpec struct {
	defaults  bool
	soapArray bool
	pkg       string
	ignoreA   []string
	ignoreE   []string
	replace   [][2]string
	only      []string
	allow     []xml.Name
	useNames  bool
	ns        []string
	inT, outT int
	comment   string
	ports     []string
}

func (o optSpec) String() string { return fmt.Sprintf("%+v", struct{ optSpecPlain }{optSpecPlain(o)}) }

type optSpecPlain optSpec

func drawOpts(stream string, set DocSet) optSpec {
	s := simrt.S(stream)
	o := optSpec{defaults: s.Choose(6) != 5, inT: 3, outT: 2}
	if s.Chance(1, 4) {
		o.pkg = "gen"
	}
	if s.Chance(1, 4) {
		o.ignoreA = []string{"id", names[s.Choose(len(names))]}
	}
	if s.Chance(1, 5) {
		o.ignoreE = []string{names[s.Choose(len(names))]}
	}
	if s.Chance(1, 4) {
		o.replace = drawReplace(s)
	}
	if s.Chance(1, 6) {
		o.only = []string{"^" + names[s.Choose(len(names))], "^[a-m]"}
	}
	if s.Chance(1, 8) {
		o.allow = []xml.Name{{Space: "urn:d0", Local: names[s.Choose(len(names))]}, {Space: "urn:d0", Local: names[s.Choose(len(names))]}}
	}
	o.useNames = s.Chance(1, 4)
	o.soapArray = s.Chance(1, 4)
	if !set.WSDL && set.Kind == "generated" && s.Chance(1, 5) {
		o.ns = []string{"urn:d0"}
	}
	if s.Chance(1, 4) {
		o.inT, o.outT = s.Choose(4), s.Choose(4)
	}
	if s.Chance(1, 5) {
		o.comment = "Package x is generated."
	}
	return o
}

func drawReplace(s *simrt.Stream) [][2]string {
	all := [][2]string{{"[aeiou]", "_"}, {"^", "T"}, {"-", ""}, {"[.-]", ""}, {"[._-]", "_"}, {"[o-z]$", ""}, {"[a-f]", "_"}, {"$", "T"}}
	i := s.Choose(len(all))
	out := [][2]string{all[i]}
	if s.Chance(1, 3) {
		out = append(out, all[s.Choose(len(all))])
	}
	return out
}

// vary returns options that differ from o in one respect.
func (o optSpec) vary(stream string, set DocSet) optSpec {
	s := simrt.S(stream)
	d := drawOpts(stream+".other", set)
	switch s.Choose(10) {
	case 0, 1, 2:
		o.replace = drawReplace(s)
	case 3:
		o.ignoreA = d.ignoreA
	case 4:
		o.ignoreE = d.ignoreE
	case 5:
		o.only = d.only
	case 6:
		o.allow = d.allow
	case 7:
		o.useNames, o.soapArray = !o.useNames, !o.soapArray
	case 8:
		o.pkg, o.defaults = d.pkg, !o.defaults
	case 9:
		o.ns, o.inT, o.outT, o.comment = d.ns, d.inT, d.outT, d.comment
	}
	return o
}

func (o optSpec) xsdOptions() []xsdgen.Option {
	var out []xsdgen.Option
	if o.defaults {
		out = append(out, xsdgen.DefaultOptions...)
	}
	if o.soapArray {
		out = append(out, xsdgen.HandleSOAPArrayType(), xsdgen.SOAPArrayAsSlice())
	}
	if o.pkg != "" {
		out = append(out, xsdgen.PackageName(o.pkg))
	}
	if o.ignoreA != nil {
		out = append(out, xsdgen.IgnoreAttributes(o.ignoreA...))
	}
	if o.ignoreE != nil {
		out = append(out, xsdgen.IgnoreElements(o.ignoreE...))
	}
	for _, r := range o.replace {
		out = append(out, xsdgen.Replace(r[0], r[1]))
	}
	if o.only != nil {
		out = append(out, xsdgen.OnlyTypes(o.only...))
	}
	for _, n := range o.allow {
		out = append(out, xsdgen.AllowType(n))
	}
	if o.useNames {
		out = append(out, xsdgen.UseFieldNames())
	}
	if o.ns != nil {
		out = append(out, xsdgen.Namespaces(o.ns...))
	}
	return out
}

func (o optSpec) wsdlOptions() []wsdlgen.Option {
	out := []wsdlgen.Option{wsdlgen.InputThreshold(o.inT), wsdlgen.OutputThreshold(o.outT)}
	if o.pkg != "" {
		out = append(out, wsdlgen.PackageName(o.pkg))
	}
	if o.comment != "" {
		out = append(out, wsdlgen.PackageComment(o.comment))
	}
	if o.ports != nil {
		out = append(out, wsdlgen.OnlyPorts(o.ports...))
	}
	return out
}

// memLog collects log lines; what it says is never compared.
type memLog struct{ n int }

func (l *memLog) Printf(format string, v ...interface{}) {
	l.n += len(fmt.Sprintf(format, v...))
}

func (o optSpec) xsdConfig(level int) *xsdgen.Config {
	cfg := new(xsdgen.Config)
	cfg.Option(o.xsdOptions()...)
	if level > 0 {
		cfg.Option(xsdgen.LogLevel(level), xsdgen.LogOutput(&memLog{}))
	}
	return cfg
}

func (o optSpec) wsdlConfig(level int) *wsdlgen.Config {
	cfg := new(wsdlgen.Config)
	cfg.Option(o.wsdlOptions()...)
	cfg.XSDOption(o.xsdOptions()...)
	if level > 0 {
		cfg.Option(wsdlgen.LogLevel(level), wsdlgen.LogOutput(&memLog{}))
	}
	return cfg
}

// writeSet writes the documents into a directory below the scratch directory
// and returns their paths.
func (t *T) writeSet(dir string, set DocSet) []string {
	var out []string
	for _, d := range set.Docs {
		out = append(out, t.Write(filepath.Join(dir, d.Name), d.Data))
	}
	return out
}

func genWith(set DocSet, files []string, x *xsdgen.Config, w *wsdlgen.Config) Outcome {
	return Try(func() (string, error) {
		var b []byte
		var err error
		if set.WSDL {
			b, err = w.GenSource(files...)
		} else {
			b, err = x.GenSource(files...)
		}
		return string(b), err
	})
}

// generate generates source with a fresh configuration.
func generate(set DocSet, files []string, o optSpec, level int) Outcome {
	return genWith(set, files, o.xsdConfig(level), o.wsdlConfig(level))
}

func parseXSD(docs ...[]byte) Outcome {
	return Try(func() (string, error) {
		ss, err := xsd.Parse(docs...)
		if err != nil {
			return "", err
		}
		return dumpSchemas(ss), nil
	})
}

func parseWSDL(doc []byte) Outcome {
	return Try(func() (string, error) {
		d, err := wsdl.Parse(doc)
		if err != nil {
			return "", err
		}
		var b strings.Builder
		fmt.Fprintf(&b, "doc %q tns %q\n", d.Doc, d.TargetNS)
		for _, p := range d.Ports {
			fmt.Fprintf(&b, "port %q %q %q\n", p.Name, p.Address, p.Method)
			for _, op := range p.Operations {
				fmt.Fprintf(&b, "  op %+v\n", op)
			}
		}
		var ms []string
		for k, m := range d.Message {
			ms = append(ms, fmt.Sprintf("message %v = %+v\n", k, m))
		}
		sort.Strings(ms)
		b.WriteString(strings.Join(ms, ""))
		return b.String(), nil
	})
}
