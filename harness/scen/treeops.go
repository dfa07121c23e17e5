package scen

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xmltree"
)

// node is a catch-all for Unmarshal.
type node struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Nodes   []node     `xml:",any"`
}

type itemOnly struct {
	Item  []string `xml:"item"`
	Value int      `xml:"value"`
	Key   string   `xml:"key,attr"`
}

// faultWriter accepts a number of bytes, then fails for a number of writes.
type faultWriter struct {
	buf     bytes.Buffer
	failAt  int // total bytes accepted before failing, -1 never
	fails   int // how many writes fail, -1 all
	short   bool
	failed  int
	atFirst int // bytes accepted when the first failure happened
	err     error
}

var errInjected = errors.New("injected write error")

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failAt >= 0 && w.buf.Len()+len(p) > w.failAt && (w.fails < 0 || w.failed < w.fails) {
		n := 0
		if w.short {
			n = w.failAt - w.buf.Len()
			if n < 0 {
				n = 0
			}
			w.buf.Write(p[:n])
		}
		if w.failed == 0 {
			w.atFirst = w.buf.Len()
		}
		w.failed++
		return n, w.err
	}
	return w.buf.Write(p)
}

// treeOp is an operation that only reads trees.
type treeOp struct {
	name string
	// el is the element operated on, other another one (perhaps the same, or
	// of another tree).
	run func(el, other *xmltree.Element) string
}

func nameList(els []*xmltree.Element) string {
	var b strings.Builder
	for _, e := range els {
		fmt.Fprintf(&b, "%v(%d,%d) ", e.Name, len(e.Content), len(e.Children))
	}
	return b.String()
}

// drawTreeOp draws an operation with its arguments.
func drawTreeOp(s *simrt.Stream) treeOp {
	nm := names[s.Choose(len(names))]
	sp := []string{"", "urn:a", "urn:b", "urn:d0", xsNS}[s.Choose(5)]
	qn := []string{"p:", "q:", "t0:", "xs:", "", "none:"}[s.Choose(6)] + nm
	n := s.Choose(40)
	switch s.Choose(16) {
	case 0:
		return treeOp{"Search(" + sp + "," + nm + ")", func(el, o *xmltree.Element) string { return nameList(el.Search(sp, nm)) }}
	case 1:
		return treeOp{"Flatten", func(el, o *xmltree.Element) string { return nameList(el.Flatten()) }}
	case 2:
		return treeOp{"SearchFunc", func(el, o *xmltree.Element) string {
			return nameList(el.SearchFunc(func(e *xmltree.Element) bool { return len(e.Children) > n%3 || e.Attr("", nm) != "" }))
		}}
	case 3:
		return treeOp{"Attr(" + nm + ")", func(el, o *xmltree.Element) string { return el.Attr("", nm) + "/" + el.Attr("urn:a", nm) }}
	case 4:
		return treeOp{"Resolve(" + qn + ")", func(el, o *xmltree.Element) string {
			r, ok := el.ResolveNS(qn)
			return fmt.Sprint(el.Resolve(qn), el.ResolveDefault(qn, "urn:dflt"), r, ok)
		}}
	case 5:
		return treeOp{"Prefix(" + sp + "," + nm + ")", func(el, o *xmltree.Element) string { return el.Prefix(xml.Name{Space: sp, Local: nm}) }}
	case 6:
		return treeOp{"Equal", func(el, o *xmltree.Element) string {
			return fmt.Sprint(xmltree.Equal(el, o), xmltree.Equal(o, el), xmltree.Equal(el, el))
		}}
	case 7:
		return treeOp{"Marshal", func(el, o *xmltree.Element) string { return string(xmltree.Marshal(el)) }}
	case 8:
		return treeOp{"MarshalIndent", func(el, o *xmltree.Element) string { return string(xmltree.MarshalIndent(el, "", "  ")) }}
	case 9:
		return treeOp{"String", func(el, o *xmltree.Element) string { return el.String() }}
	case 10:
		return treeOp{"Unmarshal(node)", func(el, o *xmltree.Element) string {
			var v node
			err := xmltree.Unmarshal(el, &v)
			return fmt.Sprintf("%v %+v", err, v)
		}}
	case 11:
		return treeOp{"Unmarshal(struct)", func(el, o *xmltree.Element) string {
			var v itemOnly
			err := xmltree.Unmarshal(el, &v)
			return fmt.Sprintf("%v %+v", err, v)
		}}
	case 12:
		return treeOp{"Encode, failing writer", func(el, o *xmltree.Element) string {
			w := faultWriter{failAt: n, fails: -1, short: n%2 == 0, err: errInjected}
			err := xmltree.Encode(&w, el)
			return fmt.Sprintf("%v %q", err, w.buf.String())
		}}
	case 13:
		return treeOp{"Encode", func(el, o *xmltree.Element) string {
			var w bytes.Buffer
			err := xmltree.Encode(&w, el)
			return fmt.Sprintf("%v %q", err, w.String())
		}}
	default:
		return treeOp{"JoinScope", func(el, o *xmltree.Element) string {
			j := el.Scope.JoinScope(&o.Scope)
			k := o.Scope.JoinScope(&el.Scope)
			l := j.JoinScope(k)
			return scopeString(j) + scopeString(k) + scopeString(l)
		}}
	}
}

func scopeString(sc *xmltree.Scope) string {
	var b strings.Builder
	for _, p := range []string{"", "p:", "q:", "t0:", "xs:", "t1:"} {
		r, ok := sc.ResolveNS(p + "x")
		fmt.Fprintf(&b, "%v %v ", r, ok)
	}
	for _, u := range []string{"urn:a", "urn:b", "urn:c", "urn:d0", xsNS} {
		b.WriteString(sc.Prefix(xml.Name{Space: u, Local: "x"}) + " ")
	}
	return b.String()
}

// at returns the k-th element of a tree in document order.
func at(root *xmltree.Element, k int) *xmltree.Element {
	all := flat(root)
	return all[k%len(all)]
}

// maxFlat bounds what is made of a tree that contains itself.
const maxFlat = 20000

// flat lists a tree's elements without using the code under test.
func flat(root *xmltree.Element) []*xmltree.Element {
	out := []*xmltree.Element{root}
	for i := 0; i < len(out) && len(out) < maxFlat; i++ {
		for j := range out[i].Children {
			out = append(out, &out[i].Children[j])
		}
	}
	return out
}
