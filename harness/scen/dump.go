package scen

import (
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

// dumpSchemas writes everything observable of a parsed model, in the order of
// the result.
func dumpSchemas(ss []xsd.Schema) string {
	var b strings.Builder
	for i, s := range ss {
		fmt.Fprintf(&b, "schema %d %q doc %q\n", i, s.TargetNS, s.Doc)
		for _, k := range sortedNames(s.Types) {
			d := typeDumper{b: &b}
			d.declaration(k, s.Types[k])
		}
	}
	return b.String()
}

// canonTypes describes the declared types, and per target namespace its
// top-level elements, without regard to the names given to anonymous types.
//
// A type that only other documents of the set declare is described where it
// is used: it cannot be the declared one.
func canonTypes(ss []xsd.Schema, decl declared) map[string]string {
	out := map[string]string{}
	for _, s := range ss {
		for k, t := range s.Types {
			self := k.Local == "_self" && decl.ns[k.Space]
			if !self && !decl.types[k] {
				continue
			}
			var b strings.Builder
			d := typeDumper{b: &b, canon: true, decl: decl}
			if c, ok := t.(*xsd.ComplexType); ok && self {
				var els []string
				for _, e := range c.Elements {
					var eb strings.Builder
					ed := typeDumper{b: &eb, canon: true, decl: decl}
					ed.element(e, 1)
					els = append(els, eb.String())
				}
				sort.Strings(els)
				for _, e := range els {
					b.WriteString(e)
				}
			} else {
				d.declaration(k, t)
			}
			id := k.Space + " " + k.Local
			if old, ok := out[id]; ok && old != b.String() {
				out[id] = old + "\nAND ALSO\n" + b.String()
				continue
			}
			out[id] = b.String()
		}
	}
	return out
}

func sortedNames(m map[xml.Name]xsd.Type) []xml.Name {
	var ks []xml.Name
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Space != ks[j].Space {
			return ks[i].Space < ks[j].Space
		}
		return ks[i].Local < ks[j].Local
	})
	return ks
}

type typeDumper struct {
	b     *strings.Builder
	canon bool
	decl  declared
	stack []xsd.Type
}

func (d *typeDumper) declaration(k xml.Name, t xsd.Type) {
	if t == nil {
		fmt.Fprintf(d.b, " %v nil\n", k)
		return
	}
	if n := xsd.XMLName(t); n != k {
		fmt.Fprintf(d.b, " %v alias of %v\n", k, n)
		return
	}
	fmt.Fprintf(d.b, " %v:\n", k)
	d.body(t, 2)
}

func (d *typeDumper) in(n int) string { return strings.Repeat(" ", n) }

func (d *typeDumper) ref(t xsd.Type, depth int) string {
	if t == nil {
		return "nil"
	}
	if d.canon && d.decl.inline(xsd.XMLName(t)) {
		for _, x := range d.stack {
			if x == t {
				return "(enclosing)"
			}
		}
		if len(d.stack) > 20 {
			return "(deep)"
		}
		var sub strings.Builder
		old := d.b
		d.b = &sub
		d.stack = append(d.stack, t)
		d.body(t, depth+2)
		d.stack = d.stack[:len(d.stack)-1]
		d.b = old
		return "anonymous {\n" + sub.String() + d.in(depth) + "}"
	}
	kind := ""
	switch t.(type) {
	case xsd.Builtin:
		kind = "builtin "
	case *xsd.ComplexType:
		kind = "complex "
	case *xsd.SimpleType:
		kind = "simple "
	default:
		kind = fmt.Sprintf("%T ", t)
	}
	n := xsd.XMLName(t)
	return kind + n.Space + " " + n.Local
}

func (d *typeDumper) body(t xsd.Type, depth int) {
	in := d.in(depth)
	switch t := t.(type) {
	case xsd.Builtin:
		fmt.Fprintf(d.b, "%sbuiltin %v\n", in, t)
	case *xsd.ComplexType:
		fmt.Fprintf(d.b, "%scomplex doc %q abstract %v extends %v mixed %v base %s\n", in, t.Doc, t.Abstract, t.Extends, t.Mixed, d.ref(t.Base, depth))
		if !d.canon {
			fmt.Fprintf(d.b, "%sname %v anonymous %v\n", in, t.Name, t.Anonymous)
		}
		for _, e := range t.Elements {
			d.element(e, depth)
		}
		for _, a := range t.Attributes {
			fmt.Fprintf(d.b, "%sattribute %v doc %q type %s plural %v default %q optional %v", in, a.Name, a.Doc, d.ref(a.Type, depth), a.Plural, a.Default, a.Optional)
			d.attrs(a.Attr, &a.Scope)
		}
	case *xsd.SimpleType:
		fmt.Fprintf(d.b, "%ssimple doc %q list %v base %s\n", in, t.Doc, t.List, d.ref(t.Base, depth))
		if !d.canon {
			fmt.Fprintf(d.b, "%sname %v anonymous %v\n", in, t.Name, t.Anonymous)
		}
		for _, u := range t.Union {
			fmt.Fprintf(d.b, "%sunion %s\n", in, d.ref(u, depth))
		}
		r := t.Restriction
		pat := "none"
		if r.Pattern != nil {
			pat = r.Pattern.String()
		}
		fmt.Fprintf(d.b, "%srestriction %q precision %d enum %q min %v max %v len %d %d %d dates %v %v digits %d pattern %s\n", in,
			r.Doc, r.Precision, r.Enum, r.Min, r.Max, r.Length, r.MinLength, r.MaxLength, r.MinDate, r.MaxDate, r.TotalDigits, pat)
	default:
		fmt.Fprintf(d.b, "%s%T\n", in, t)
	}
}

func (d *typeDumper) element(e xsd.Element, depth int) {
	fmt.Fprintf(d.b, "%selement %v doc %q wildcard %v type %s abstract %v plural %v optional %v nillable %v default %q", d.in(depth),
		d.elementName(e), e.Doc, e.Wildcard, d.ref(e.Type, depth), e.Abstract, e.Plural, e.Optional, e.Nillable, e.Default)
	d.attrs(e.Attr, &e.Scope)
}

func (d *typeDumper) elementName(e xsd.Element) xml.Name { return e.Name }

// attrs writes the additional attributes; those that hold type names are
// covered by the types.
func (d *typeDumper) attrs(attrs []xml.Attr, sc *xmltree.Scope) {
	for _, a := range attrs {
		if a.Name.Space == "" {
			switch a.Name.Local {
			case "type", "base", "itemType", "memberTypes", "ref":
				if d.canon {
					continue
				}
			}
		}
		if d.canon && strings.Contains(a.Value, "_anon") {
			continue
		}
		fmt.Fprintf(d.b, " [%v=%q", a.Name, a.Value)
		if strings.Contains(a.Value, ":") {
			fmt.Fprintf(d.b, " -> %v", sc.Resolve(a.Value))
		}
		d.b.WriteString("]")
	}
	d.b.WriteString("\n")
}

// dumpTree writes everything observable of a tree.
func dumpTree(el *xmltree.Element) string {
	var b strings.Builder
	n := 0
	var walk func(el *xmltree.Element, depth int)
	walk = func(el *xmltree.Element, depth int) {
		if n++; n > maxFlat {
			return
		}
		fmt.Fprintf(&b, "%s%v", strings.Repeat(" ", depth), el.Name)
		for _, a := range el.StartElement.Attr {
			fmt.Fprintf(&b, " [%v=%q]", a.Name, a.Value)
		}
		for _, p := range []string{"", "xs:", "t0:", "t1:", "p:", "q:"} {
			fmt.Fprintf(&b, " %v", el.Resolve(p+"x").Space)
		}
		if len(el.Children) == 0 {
			fmt.Fprintf(&b, " content %q", el.Content)
		} else {
			fmt.Fprintf(&b, " content(%d) %q", len(el.Content), el.Content)
		}
		b.WriteByte('\n')
		if depth > 200 {
			return
		}
		for i := range el.Children {
			walk(&el.Children[i], depth+1)
		}
	}
	walk(el, 0)
	return b.String()
}
