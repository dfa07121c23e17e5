package scen

import (
	"bytes"
	"encoding/xml"
	"strings"
)

// A reader of WSDL documents of our own, for what generated clients are
// expected to send.

// Node is an element of a document.
type Node struct {
	Name  xml.Name
	Attrs []xml.Attr
	Kids  []*Node
	Text  string
	ns    map[string]string
}

// ParseNode parses a document, or nil.
func ParseNode(doc []byte) *Node {
	dec := xml.NewDecoder(bytes.NewReader(doc))
	dec.CharsetReader = nil
	root := &Node{ns: map[string]string{}}
	stack := []*Node{root}
	for {
		tok, err := dec.Token()
		if err != nil {
			break
		}
		top := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			tok = tok.Copy()
			n := &Node{Name: tok.Name, Attrs: tok.Attr, ns: top.ns}
			for _, a := range tok.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					m := map[string]string{}
					for k, v := range n.ns {
						m[k] = v
					}
					if a.Name.Space == "" {
						m[""] = a.Value
					} else {
						m[a.Name.Local] = a.Value
					}
					n.ns = m
				}
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.Text += string(tok)
		}
	}
	if len(stack) != 1 || len(root.Kids) != 1 {
		return nil
	}
	return root.Kids[0]
}

// Attr returns the value of an unqualified attribute.
func (n *Node) Attr(name string) string {
	for _, a := range n.Attrs {
		if a.Name.Local == name && a.Name.Space == "" {
			return a.Value
		}
	}
	return ""
}

// Leaves appends the texts of all elements without children, and the
// attribute values other than namespace declarations.
func (n *Node) Leaves(out []string) []string {
	for _, a := range n.Attrs {
		if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
			out = append(out, a.Value)
		}
	}
	if strings.TrimSpace(n.Text) != "" || len(n.Kids) == 0 {
		out = append(out, n.Text)
	}
	for _, k := range n.Kids {
		out = k.Leaves(out)
	}
	return out
}

// Each calls f for the element and everything below.
func (n *Node) Each(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.Each(f)
	}
}

// Kid returns the first child with a local name.
func (n *Node) Kid(local string) *Node {
	if n == nil {
		return nil
	}
	for _, k := range n.Kids {
		if k.Name.Local == local {
			return k
		}
	}
	return nil
}

func (n *Node) all(space, local string) (out []*Node) {
	n.Each(func(k *Node) {
		if k.Name.Local == local && k.Name.Space == space {
			out = append(out, k)
		}
	})
	return out
}

func localOf(q string) string { return q[strings.IndexByte(q, ':')+1:] }

const (
	wsdlSpace = "http://schemas.xmlsoap.org/wsdl/"
	soapSpace = "http://schemas.xmlsoap.org/wsdl/soap/"
	s12Space  = "http://schemas.xmlsoap.org/wsdl/soap12/"
	httpSpace = "http://schemas.xmlsoap.org/wsdl/http/"
)

// Op is what the client of an operation is expected to do.
type Op struct {
	Port, Name, Method, Address, Action string
	In, Out                             []string // parts
	InMsg, OutMsg, NS                   string
}

// PortsOf returns the names of the ports of a WSDL document.
func PortsOf(doc []byte) (out []string) {
	root := ParseNode(doc)
	if root == nil {
		return nil
	}
	for _, p := range root.all(wsdlSpace, "port") {
		out = append(out, p.Attr("name"))
	}
	return out
}

// OpsOf returns the operations of the ports (of one port, if port is not "").
func OpsOf(doc []byte, port string) (out []Op) {
	root := ParseNode(doc)
	if root == nil {
		return nil
	}
	parts := map[string][]string{}
	for _, m := range root.all(wsdlSpace, "message") {
		for _, p := range m.all(wsdlSpace, "part") {
			parts[m.Attr("name")] = append(parts[m.Attr("name")], p.Attr("name"))
		}
	}
	for _, p := range root.all(wsdlSpace, "port") {
		if port != "" && p.Attr("name") != port {
			continue
		}
		addr := ""
		for _, sp := range []string{soapSpace, s12Space} {
			for _, a := range p.all(sp, "address") {
				addr = a.Attr("location")
			}
		}
		for _, b := range root.all(wsdlSpace, "binding") {
			if b.Attr("name") != localOf(p.Attr("binding")) {
				continue
			}
			method := "POST"
			for _, h := range b.all(httpSpace, "binding") {
				if v := h.Attr("verb"); v != "" {
					method = strings.ToUpper(v)
				}
			}
			action := map[string]string{}
			for _, o := range b.Kids {
				if o.Name.Local == "operation" && o.Name.Space == wsdlSpace {
					for _, so := range o.all(soapSpace, "operation") {
						action[o.Attr("name")] = so.Attr("soapAction")
					}
				}
			}
			for _, pt := range root.all(wsdlSpace, "portType") {
				if pt.Attr("name") != localOf(b.Attr("type")) {
					continue
				}
				for _, o := range pt.all(wsdlSpace, "operation") {
					op := Op{Port: p.Attr("name"), Name: o.Attr("name"), Method: method, Address: addr, Action: action[o.Attr("name")],
						NS: root.Attr("targetNamespace")}
					if i := o.Kid("input"); i != nil {
						op.InMsg = localOf(i.Attr("message"))
						op.In = parts[op.InMsg]
					}
					if i := o.Kid("output"); i != nil {
						op.OutMsg = localOf(i.Attr("message"))
						op.Out = parts[op.OutMsg]
					}
					out = append(out, op)
				}
			}
		}
	}
	return out
}
