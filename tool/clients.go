package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

// generateClients runs the code generators of the repository's working tree
// on the documents of the scenarios C12 to C15, instruments what they wrote
// and puts it into the overlay, with a registry of it.
func (b *builder) generateClients() error {
	bin := filepath.Join(b.work, "worker-gen")
	if err := b.build("worker", bin, false); err != nil {
		return err
	}
	out := filepath.Join(b.work, "clients")
	if err := os.MkdirAll(out, 0777); err != nil {
		return err
	}
	cmd := exec.Command(bin, "gensoap", out)
	cmd.Dir = out
	cmd.Env = append(workerEnv(), "VERIF_DIR="+b.verif)
	if msg, err := cmd.CombinedOutput(); err != nil {
		if len(msg) > 4000 {
			msg = msg[:4000]
		}
		return fmt.Errorf("%v\n%s", err, msg)
	}
	data, err := os.ReadFile(filepath.Join(out, "index.json"))
	if err != nil {
		return err
	}
	var index []struct {
		Name, Doc, Label, Kind string
		WSDL                   bool
	}
	if err := json.Unmarshal(data, &index); err != nil {
		return err
	}
	const base = "aqwari.net/xml/internal/verifsim/gen/"
	var reg, imports bytes.Buffer
	clients, types := 0, 0
	for _, e := range index {
		src := filepath.Join(out, e.Name, "x.go")
		f, err := parser.ParseFile(token.NewFileSet(), src, nil, 0)
		if err != nil {
			b.skipped++
			continue
		}
		client := false
		var names []string
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				continue
			}
			for _, s := range g.Specs {
				ts := s.(*ast.TypeSpec)
				if _, ok := ts.Type.(*ast.InterfaceType); ok || !ts.Name.IsExported() {
					continue
				}
				if e.WSDL && ts.Name.Name == "Client" {
					client = true
					continue
				}
				names = append(names, ts.Name.Name)
			}
		}
		if !client && len(names) == 0 {
			continue
		}
		res, err := b.in.instrumentPackage(base+e.Name, []string{src})
		if err != nil {
			b.skipped++
			continue
		}
		dir := filepath.Join(b.repo, "internal", "verifsim", "gen", e.Name)
		if err := b.put(filepath.Join(dir, "x.go"), res[src]); err != nil {
			return err
		}
		var zz bytes.Buffer
		fmt.Fprintf(&zz, "package %s\n\n", f.Name.Name)
		fmt.Fprintf(&zz, "func VerifTypes() map[string]func() interface{} {\n\treturn map[string]func() interface{}{\n")
		for _, n := range names {
			fmt.Fprintf(&zz, "\t\t%q: func() interface{} { return new(%s) },\n", n, n)
			types++
		}
		fmt.Fprintf(&zz, "\t}\n}\n")
		newClient := "nil"
		if client {
			clients++
			fmt.Fprintf(&zz, "\nfunc VerifClient() interface{} { return new(Client) }\n")
			newClient = e.Name + ".VerifClient"
		}
		if err := b.put(filepath.Join(dir, "zz_verif.go"), zz.Bytes()); err != nil {
			return err
		}
		fmt.Fprintf(&imports, "\t%s %q\n", e.Name, base+e.Name)
		fmt.Fprintf(&reg, "\t{Name: %q, Path: %q, Kind: %q, Label: %q, WSDL: %v, Types: %s.VerifTypes(), Client: %s, Doc: %s},\n",
			e.Name, base+e.Name, e.Kind, e.Label, e.WSDL, e.Name, newClient, strconv.Quote(e.Doc))
	}
	if clients == 0 || types == 0 {
		return fmt.Errorf("no generated package compiles")
	}
	b.in.Stats["generated clients"] = clients
	b.in.Stats["generated types"] = types
	if b.skipped > 0 {
		b.in.Stats["generated packages that do not compile"] = b.skipped
	}
	var out2 strings.Builder
	fmt.Fprintf(&out2, `// Package genreg lists the generated packages.
package genreg

import (
%s)

type Package struct {
	Name, Path, Kind, Label, Doc string
	WSDL                         bool
	Types                        map[string]func() interface{}
	Client                       func() interface{}
}

var Packages = []Package{
%s}
`, imports.String(), reg.String())
	if err := b.put(filepath.Join(b.repo, "internal", "verifsim", "genreg", "genreg.go"), []byte(out2.String())); err != nil {
		return err
	}
	return b.addHarness("soapworker", "soap")
}
