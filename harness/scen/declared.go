package scen

import (
	"bytes"
	"encoding/xml"
	"io"
)

const xsNS = "http://www.w3.org/2001/XMLSchema"

// declared lists the types that documents declare by name, and the target
// namespaces of their schemas, read with the standard library alone.
type declared struct {
	types map[xml.Name]bool
	ns    map[string]bool
	// elements are the local names of the top-level elements of a namespace
	elements map[string]map[string]bool
}

func declaredIn(docs ...[]byte) declared {
	d := declared{map[xml.Name]bool{}, map[string]bool{}, map[string]map[string]bool{}}
	for _, doc := range docs {
		dec := xml.NewDecoder(bytes.NewReader(doc))
		dec.CharsetReader = func(label string, r io.Reader) (io.Reader, error) { return r, nil }
		var stack []xml.Name
		var tns []string
		for {
			tok, err := dec.Token()
			if err != nil {
				break
			}
			switch tok := tok.(type) {
			case xml.StartElement:
				attr := func(n string) string {
					for _, a := range tok.Attr {
						if a.Name.Local == n && a.Name.Space == "" {
							return a.Value
						}
					}
					return ""
				}
				if tok.Name == (xml.Name{Space: xsNS, Local: "schema"}) {
					tns = append(tns, attr("targetNamespace"))
					d.ns[attr("targetNamespace")] = true
				} else if len(stack) > 0 && stack[len(stack)-1] == (xml.Name{Space: xsNS, Local: "schema"}) &&
					tok.Name.Space == xsNS && (tok.Name.Local == "complexType" || tok.Name.Local == "simpleType") {
					if n := attr("name"); n != "" {
						d.types[xml.Name{Space: tns[len(tns)-1], Local: n}] = true
					}
				} else if len(stack) > 0 && stack[len(stack)-1] == (xml.Name{Space: xsNS, Local: "schema"}) &&
					tok.Name == (xml.Name{Space: xsNS, Local: "element"}) {
					if n := attr("name"); n != "" {
						ns := tns[len(tns)-1]
						if d.elements[ns] == nil {
							d.elements[ns] = map[string]bool{}
						}
						d.elements[ns][n] = true
					}
				}
				stack = append(stack, tok.Name)
			case xml.EndElement:
				stack = stack[:len(stack)-1]
				if tok.Name == (xml.Name{Space: xsNS, Local: "schema"}) {
					tns = tns[:len(tns)-1]
				}
			}
		}
	}
	return d
}

// inline reports whether a type has no declared name, so that it is described
// where it is used.
func (d declared) inline(n xml.Name) bool {
	return n.Space != xsNS && d.ns[n.Space] && !d.types[n]
}
