package scen

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

// GenClients makes the repository's generators write the Go packages that the
// scenarios C12 to C15 run: clients from WSDL documents, types from schemas.
// What comes from the seeded generator is always the same here; VERIF_SEED
// has no influence on it.
func GenClients(out, verif string) error {
	t := &T{Verif: verif, Scratch: out}
	simrt.Begin(simrt.Mix(1, hash("clients")), nil, -1)
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	type input struct {
		set   DocSet
		opts  []xsdgen.Option
		wopts []wsdlgen.Option
		label string
	}
	var ins []input
	def := xsdgen.DefaultOptions
	ms, _ := filepath.Glob(filepath.Join(verif, "harness", "soapdocs", "*"))
	sort.Strings(ms)
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil {
			return err
		}
		base := filepath.Base(m)
		set := DocSet{Kind: base, WSDL: isWSDL(base), Docs: []Doc{{Name: base, Data: b}}}
		ins = append(ins, input{set: set, opts: def})
		if !set.WSDL {
			ins = append(ins, input{set: set, label: "plain"},
				input{set: set, opts: append([]xsdgen.Option{xsdgen.Replace("^", "X")}, def...), label: "renamed"})
		}
	}
	for i := 0; i < 8; i++ {
		ins = append(ins, input{set: genXSD(fmt.Sprintf("xsd%d", i), genOpts{maxDocs: 2, maxTypes: 8, soap: i%2 == 0, raw: true}), opts: def})
	}
	for i := 0; i < 6; i++ {
		ins = append(ins, input{set: genWSDL(fmt.Sprintf("wsdl%d", i), genOpts{maxDocs: 1, maxTypes: 6, soap: i%2 == 0, raw: true}), opts: def})
	}
	for _, f := range t.corpus() {
		if len(f.data) > 40000 || companions[f.name] != nil {
			continue
		}
		set := DocSet{Kind: f.name, WSDL: isWSDL(f.name), Docs: []Doc{{Name: f.name, Data: f.data}}}
		ins = append(ins, input{set: set, opts: def})
		if set.WSDL {
			// several ports often offer the same operations
			for _, port := range PortsOf(f.data) {
				ins = append(ins, input{set: set, opts: def, wopts: []wsdlgen.Option{wsdlgen.OnlyPorts(port)}, label: "port " + port})
			}
		}
	}
	type entry struct {
		Name, Doc, Label, Kind string
		WSDL                   bool
	}
	var index []entry
	for i, in := range ins {
		name := fmt.Sprintf("g%02d", i)
		files := t.writeSet(name, in.set)
		o := Try(func() (string, error) {
			if in.set.WSDL {
				var c wsdlgen.Config
				c.Option(wsdlgen.DefaultOptions...)
				c.XSDOption(in.opts...)
				c.Option(in.wopts...)
				c.Option(wsdlgen.PackageName(name))
				b, err := c.GenSource(files...)
				return string(b), err
			}
			var c xsdgen.Config
			c.Option(in.opts...)
			c.Option(xsdgen.PackageName(name))
			b, err := c.GenSource(files...)
			return string(b), err
		})
		if o.Failed() {
			continue
		}
		if err := os.WriteFile(filepath.Join(out, name, "x.go"), []byte(o.Val), 0666); err != nil {
			return err
		}
		index = append(index, entry{Name: name, Doc: string(in.set.Docs[0].Data), Kind: in.set.Kind, Label: in.label, WSDL: in.set.WSDL})
	}
	b, err := json.Marshal(index)
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "index.json"), b, 0666)
}
