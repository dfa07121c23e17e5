package scen

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// Doc is one input document.
type Doc struct {
	Name string
	Data []byte
	Refs []int // indices of imported documents, if generated
}

// DocSet is one case's input.
type DocSet struct {
	Docs []Doc
	WSDL bool   // Docs[0] is a WSDL document
	Kind string // "generated" or a corpus file
}

func (s DocSet) Bytes() [][]byte {
	out := make([][]byte, len(s.Docs))
	for i, d := range s.Docs {
		out[i] = append([]byte(nil), d.Data...)
	}
	return out
}

func (s DocSet) ident() string {
	var b strings.Builder
	for _, d := range s.Docs {
		b.Write(d.Data)
		b.WriteByte(0)
	}
	return b.String()
}

var names = []string{"item", "Item", "foo", "Foo", "x-y", "xy", "order", "Order", "value", "Value", "name", "kind", "list", "a.b", "ab", "date", "node", "Node", "key", "data"}

var builtins = []string{"string", "int", "boolean", "date", "dateTime", "time", "decimal", "double", "base64Binary", "hexBinary",
	"anyURI", "token", "NMTOKENS", "ID", "integer", "long", "short", "unsignedInt", "gYear", "duration", "anySimpleType", "language", "float", "byte", "NCName", "QName", "positiveInteger", "gMonthDay", "IDREFS"}

type gtype struct {
	doc     int
	name    string
	complex bool
	simpleC bool // simple content
	weight  int
}

type gglobal struct {
	doc        int
	kind, name string
}

// genOpts bound the generator.
type genOpts struct {
	maxDocs  int
	maxTypes int
	split    bool // several documents may share one target namespace
	soap     bool // SOAP arrays
	chained  bool // a document imports only earlier documents
	// locations of imports: name of document i
	location func(i int) string
	raw      bool // no variation of white space
}

type xsdGen struct {
	s       *simrt.Stream
	o       genOpts
	n       int
	ns      []string
	types   []gtype
	globals []gglobal
	body    []strings.Builder
	chunk   [][]int // where top-level declarations start in body
	used    map[string]bool
	refs    []map[int]bool
	cur     int
	self    string  // complex type being declared
	later   []gtype // complex types that must still be declared
}

func (g *xsdGen) c(n int) int           { return g.s.Choose(n) }
func (g *xsdGen) p(num, den int) bool   { return g.s.Chance(num, den) }
func (g *xsdGen) w(f string, a ...any)  { fmt.Fprintf(&g.body[g.cur], f, a...) }
func (g *xsdGen) prefix(doc int) string { g.refs[g.cur][doc] = true; return fmt.Sprintf("t%d", doc) }
func (g *xsdGen) q(t gtype) string      { return g.prefix(t.doc) + ":" + t.name }
func (g *xsdGen) builtin() string       { return "xs:" + builtins[g.c(len(builtins))] }
func (g *xsdGen) simpleBuiltin() string { return "xs:" + builtins[g.c(len(builtins))] }
func (g *xsdGen) anyName() string       { return names[g.c(len(names))] }
func (g *xsdGen) freshName(kind string) string {
	k := g.c(len(names))
	for i := 0; ; i++ {
		n := names[(k+i)%len(names)]
		if i >= len(names) {
			n = fmt.Sprintf("%s%d", n, i)
		}
		id := kind + g.ns[g.cur] + " " + n
		if !g.used[id] {
			g.used[id] = true
			return n
		}
	}
}

func (g *xsdGen) typeRef(simple bool) string {
	if !simple {
		switch g.c(24) {
		case 22: // recursion
			if g.self != "" {
				return g.prefix(g.cur) + ":" + g.self
			}
		case 23: // a type that is declared later
			if r := g.laterRef(); r != "" {
				return r
			}
		}
	}
	if len(g.types) > 0 && g.p(1, 2) {
		t := g.types[len(g.types)-1-g.c(len(g.types))]
		if !simple || !t.complex {
			return g.q(t)
		}
	}
	return g.builtin()
}

func (g *xsdGen) laterRef() string {
	if k := g.c(3); k < len(g.later) && !(g.o.chained && g.later[k].doc != g.cur) {
		return g.q(g.later[k])
	}
	if len(g.later) == 3 {
		return ""
	}
	t := gtype{doc: g.cur, name: g.freshName("type"), complex: true}
	g.later = append(g.later, t)
	return g.q(t)
}

// declareLater declares the types that were promised.
func (g *xsdGen) declareLater() {
	for i := 0; i < len(g.later); i++ {
		t := g.later[i]
		g.cur = t.doc
		g.mark()
		g.self = t.name
		g.w("<xs:complexType name=%q>", t.name)
		g.particle(1, map[string]bool{})
		g.attributes(map[string]bool{}, 2)
		g.w("</xs:complexType>\n")
		g.self = ""
		g.types = append(g.types, t)
	}
}

func (g *xsdGen) weightOf(ref string) int {
	for _, t := range g.types {
		if fmt.Sprintf("t%d:%s", t.doc, t.name) == ref {
			return t.weight
		}
	}
	return 0
}

func (g *xsdGen) occurs() string {
	switch g.c(6) {
	case 1:
		return ` minOccurs="0"`
	case 2:
		return ` maxOccurs="unbounded"`
	case 3:
		return ` minOccurs="0" maxOccurs="unbounded"`
	case 4:
		return ` maxOccurs="3"`
	}
	return ""
}

func (g *xsdGen) annotation() {
	if g.p(1, 8) {
		g.note()
	}
}

// note writes an annotation.
func (g *xsdGen) note() {
	g.w("<xs:annotation>")
	switch g.c(8) {
	case 1:
		g.w("<xs:documentation>First of %s.</xs:documentation><xs:documentation>Second.</xs:documentation>", g.anyName())
	case 2:
		g.w("<xs:documentation><![CDATA[Raw <%s> & more]]></xs:documentation>", g.anyName())
	case 3:
		g.w("<xs:appinfo><meta kind=\"x\">1</meta></xs:appinfo><xs:documentation>\n  About %s,\n  on two lines\n</xs:documentation>", g.anyName())
	case 4:
		g.w("<xs:documentation>Item <b>%s</b> of&#x20;many &lt;x&gt;</xs:documentation>", g.anyName())
	case 5:
		g.w("<xs:documentation/>")
	default:
		g.w("<xs:documentation>About %s &amp; more</xs:documentation>", g.anyName())
	}
	g.w("</xs:annotation>\n")
}

// facets writes the facets of a restriction.
func (g *xsdGen) facets(base string) {
	num := "3"
	switch base {
	case "xs:date":
		num = "2001-02-03"
	case "xs:dateTime":
		num = "2001-02-03T04:05:06Z"
	}
	switch g.c(13) {
	case 1:
		for i := 0; i <= g.c(3); i++ {
			g.w("<xs:enumeration value=%q/>", names[i])
		}
	case 2:
		g.w(`<xs:pattern value="[a-z]{%d}"/>`, 1+g.c(9))
	case 3:
		g.w(`<xs:maxLength value="%d"/>`, 1+g.c(9))
	case 4:
		g.w(`<xs:minLength value="%d"/>`, 1+g.c(9))
	case 5:
		g.w(`<xs:pattern value="a"/><xs:pattern value="[0-9]+"/>`)
	case 6:
		g.w(`<xs:minInclusive value="%s"/><xs:maxExclusive value="%s"/>`, num, num)
	case 7:
		g.w(`<xs:totalDigits value="%d"/><xs:fractionDigits value="%d"/>`, 3+g.c(5), g.c(3))
	case 8:
		g.w(`<xs:pattern value="%s"/>`, []string{`\i\c*`, `[a-z`, `\p{IsBasicLatin}+`, `x|y{2}`}[g.c(4)])
	case 9:
		g.w(`<xs:length value="%d"/><xs:whiteSpace value="collapse"/>`, g.c(20))
	case 10:
		g.note()
		g.w(`<xs:enumeration value="a">`)
		g.note()
		g.w("</xs:enumeration>")
	}
}

func (g *xsdGen) simpleBody(depth int) {
	switch g.c(8) {
	case 7:
		if depth > 0 {
			g.w("<xs:union memberTypes=%q><xs:simpleType>", g.typeRef(true))
			g.simpleBody(depth - 1)
			g.w("</xs:simpleType></xs:union>")
			return
		}
		g.w(`<xs:union memberTypes="xs:int xs:string"/>`)
	case 0, 1, 2:
		base := g.simpleBuiltin()
		if g.p(1, 3) {
			base = g.typeRef(true)
		}
		g.w("<xs:restriction base=%q>", base)
		g.facets(base)
		g.w("</xs:restriction>")
	case 3:
		g.w("<xs:list itemType=%q/>", g.typeRef(true))
	case 4:
		g.w("<xs:union memberTypes=\"%s %s\"/>", g.typeRef(true), g.builtin())
	case 5:
		if depth > 0 {
			g.w("<xs:list><xs:simpleType>")
			g.simpleBody(depth - 1)
			g.w("</xs:simpleType></xs:list>")
			return
		}
		g.w(`<xs:restriction base="xs:string"/>`)
	case 6:
		if depth > 0 {
			g.w("<xs:restriction><xs:simpleType>")
			g.simpleBody(depth - 1)
			g.w("</xs:simpleType></xs:restriction>")
			return
		}
		g.w(`<xs:restriction base="xs:int"/>`)
	}
}

func (g *xsdGen) globalRef(kind string) string {
	var c []gglobal
	for _, x := range g.globals {
		if x.kind == kind {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return ""
	}
	x := c[g.c(len(c))]
	return g.prefix(x.doc) + ":" + x.name
}

// particle writes a sequence, choice or all; it returns the weight.
func (g *xsdGen) particle(depth int, taken map[string]bool) int {
	kind := []string{"sequence", "choice", "all", "sequence"}[g.c(4)]
	if depth < 2 && kind == "all" {
		kind = "sequence"
	}
	occ := ""
	if kind != "all" && g.p(1, 8) {
		occ = g.occurs()
	}
	g.w("<xs:%s%s>\n", kind, occ)
	w := 1
	n := 1 + g.c(3)
	for i := 0; i < n; i++ {
		w += g.element(depth, taken, kind == "all")
	}
	g.w("</xs:%s>\n", kind)
	return w
}

func (g *xsdGen) localName(taken map[string]bool) string {
	k := g.c(len(names))
	for i := 0; ; i++ {
		n := names[(k+i)%len(names)]
		if i >= len(names) {
			n = fmt.Sprintf("%s%d", n, i)
		}
		if !taken[n] || (i == 0 && g.p(1, 6)) {
			taken[n] = true
			return n
		}
	}
}

func (g *xsdGen) element(depth int, taken map[string]bool, flat bool) int {
	occ := g.occurs()
	if flat {
		occ = ""
	}
	switch g.c(12) {
	case 7:
		if !flat && depth > 0 {
			return g.particle(depth-1, taken)
		}
	case 8:
		if depth > 0 {
			g.w("<xs:element name=%q%s><xs:complexType>\n", g.localName(taken), occ)
			w := g.particle(depth-1, map[string]bool{})
			g.attributes(map[string]bool{}, 2)
			g.w("</xs:complexType></xs:element>\n")
			return w
		}
	case 9:
		if depth > 0 {
			g.w("<xs:element name=%q%s><xs:simpleType>", g.localName(taken), occ)
			g.simpleBody(1)
			g.w("</xs:simpleType></xs:element>\n")
			return 1
		}
	case 10:
		if r := g.globalRef("element"); r != "" {
			g.w("<xs:element ref=%q%s/>\n", r, occ)
			return 5
		}
		if r := g.globalRef("group"); r != "" && !flat {
			g.w("<xs:group ref=%q/>\n", r)
			return 5
		}
	case 11:
		if !flat && g.p(1, 2) {
			g.w("<xs:any%s/>\n", g.occurs())
			return 1
		}
	}
	ref := g.typeRef(false)
	extra := ""
	switch g.c(14) {
	case 10:
		extra = ` abstract="true"`
	case 11:
		extra = ` form="unqualified" block="#all"`
	case 12:
		extra = ` fixed="1"`
	case 13:
		g.w("<xs:element name=%q%s/>\n", g.localName(taken), occ)
		return 1
	case 7:
		extra = ` nillable="true"`
	case 8:
		if ref == "xs:string" || ref == "xs:int" {
			extra = ` default="7"`
		}
	case 9:
		g.w("<xs:element name=%q%s type=%q>", g.localName(taken), occ, ref)
		g.annotation()
		g.w("</xs:element>\n")
		return 1 + g.weightOf(ref)
	}
	g.w("<xs:element name=%q%s type=%q%s/>\n", g.localName(taken), occ, ref, extra)
	return 1 + g.weightOf(ref)
}

func (g *xsdGen) attributes(taken map[string]bool, max int) {
	for i := 0; i < g.c(max+1); i++ {
		switch g.c(6) {
		case 4:
			if r := g.globalRef("attribute"); r != "" {
				g.w("<xs:attribute ref=%q/>\n", r)
				continue
			}
		case 5:
			if r := g.globalRef("attributeGroup"); r != "" {
				g.w("<xs:attributeGroup ref=%q/>\n", r)
				continue
			}
		}
		n := g.localName(taken)
		switch g.c(13) {
		case 8:
			g.w("<xs:attribute name=%q type=\"xs:int\" default=\"7\" form=\"qualified\"/>\n", n)
		case 9:
			g.w("<xs:attribute name=%q type=\"xs:string\" fixed=\"f\"/>\n", n)
		case 10:
			g.w("<xs:attribute name=%q type=%q>", n, g.typeRef(true))
			g.note()
			g.w("</xs:attribute>\n")
		case 11:
			sp := []string{"id", "href", "ref", "offset"}[g.c(4)]
			if !taken[sp] {
				taken[sp] = true
				g.w("<xs:attribute name=%q type=%q/>\n", sp, g.typeRef(true))
			}
		case 12:
			if i == 0 && g.p(1, 2) {
				g.w("<xs:anyAttribute/>\n")
			}
		case 5:
			g.w("<xs:attribute name=%q/>\n", n)
		case 6:
			g.w("<xs:attribute name=%q><xs:simpleType>", n)
			g.simpleBody(0)
			g.w("</xs:simpleType></xs:attribute>\n")
		case 7:
			g.w("<xs:attribute name=%q type=%q use=\"required\"/>\n", n, g.typeRef(true))
		default:
			g.w("<xs:attribute name=%q type=%q/>\n", n, g.typeRef(true))
		}
	}
}

func (g *xsdGen) complexBase() (gtype, bool) {
	var c []gtype
	for _, t := range g.types {
		if t.complex && !t.simpleC && t.weight < 40 {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return gtype{}, false
	}
	return c[len(c)-1-g.c(len(c))], true
}

func (g *xsdGen) typeDecl() {
	t := gtype{doc: g.cur, name: g.freshName("type")}
	g.self = t.name
	defer func() { g.self = "" }()
	switch g.c(10) {
	case 0, 1, 2:
		g.w("<xs:simpleType name=%q>", t.name)
		g.annotation()
		g.simpleBody(2)
		g.w("</xs:simpleType>\n")
	case 3:
		t.complex, t.simpleC = true, true
		var sc []gtype
		for _, x := range g.types {
			if x.simpleC {
				sc = append(sc, x)
			}
		}
		if len(sc) > 0 && g.p(1, 2) {
			// derived from another one
			op := []string{"extension", "restriction"}[g.c(2)]
			g.w("<xs:complexType name=%q><xs:simpleContent><xs:%s base=%q>\n", t.name, op, g.q(sc[len(sc)-1-g.c(len(sc))]))
			g.attributes(map[string]bool{}, 2)
			g.w("</xs:%s></xs:simpleContent></xs:complexType>\n", op)
			break
		}
		g.w("<xs:complexType name=%q><xs:simpleContent><xs:extension base=%q>\n", t.name, g.typeRef(true))
		g.attributes(map[string]bool{}, 3)
		g.w("</xs:extension></xs:simpleContent></xs:complexType>\n")
	case 4, 5:
		if b, ok := g.complexBase(); ok {
			t.complex = true
			op := "extension"
			if g.p(1, 4) {
				op = "restriction"
			}
			mixed := ""
			if g.p(1, 8) {
				mixed = ` mixed="true"`
			}
			g.w("<xs:complexType name=%q><xs:complexContent%s><xs:%s base=%q>\n", t.name, mixed, op, g.q(b))
			t.weight = b.weight + g.particle(1, map[string]bool{})
			g.attributes(map[string]bool{}, 2)
			g.w("</xs:%s></xs:complexContent></xs:complexType>\n", op)
			break
		}
		fallthrough
	default:
		t.complex = true
		if g.o.soap && g.p(1, 6) {
			g.w(`<xs:complexType name=%q><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="%s[]"/></xs:restriction></xs:complexContent></xs:complexType>`+"\n", t.name, g.typeRef(false))
			t.weight = 8
			break
		}
		mixed := ""
		if g.p(1, 10) {
			mixed = ` mixed="true"`
		}
		if g.p(1, 12) {
			mixed += ` abstract="true"`
		}
		g.w("<xs:complexType name=%q%s>", t.name, mixed)
		g.annotation()
		if !g.p(1, 12) {
			t.weight = g.particle(2, map[string]bool{})
		}
		g.attributes(map[string]bool{}, 3)
		g.w("</xs:complexType>\n")
	}
	g.types = append(g.types, t)
}

func (g *xsdGen) globalDecl() {
	x := gglobal{doc: g.cur}
	switch g.c(6) {
	case 0, 1, 2:
		x.kind = "element"
		x.name = g.freshName("element")
		if g.p(1, 3) {
			g.w("<xs:element name=%q><xs:complexType>", x.name)
			g.particle(1, map[string]bool{})
			g.w("</xs:complexType></xs:element>\n")
		} else {
			extra := ""
			if r := g.globalRef("element"); r != "" && g.p(1, 4) {
				extra = fmt.Sprintf(" substitutionGroup=%q", r)
			}
			g.w("<xs:element name=%q type=%q%s/>\n", x.name, g.typeRef(false), extra)
		}
	case 3:
		x.kind = "attribute"
		x.name = g.freshName("attribute")
		g.w("<xs:attribute name=%q type=%q/>\n", x.name, g.builtin())
	case 4:
		x.kind = "attributeGroup"
		x.name = g.freshName("attributeGroup")
		g.w("<xs:attributeGroup name=%q>\n", x.name)
		g.attributes(map[string]bool{}, 2)
		g.w("<xs:attribute name=%q type=%q/>\n", g.anyName(), g.builtin())
		g.w("</xs:attributeGroup>\n")
	case 5:
		x.kind = "group"
		x.name = g.freshName("group")
		g.w("<xs:group name=%q>\n", x.name)
		g.particle(0, map[string]bool{})
		g.w("</xs:group>\n")
	}
	g.globals = append(g.globals, x)
}

// mark notes that a top-level declaration starts.
func (g *xsdGen) mark() {
	g.chunk[g.cur] = append(g.chunk[g.cur], g.body[g.cur].Len())
}

// shuffled returns the declarations of a document, sometimes in an order in
// which declarations are used before they are made.
func (g *xsdGen) shuffled(i int) string {
	body := g.body[i].String()
	if len(g.chunk[i]) < 2 || !g.p(1, 2) {
		return body
	}
	var b strings.Builder
	b.WriteString(body[:g.chunk[i][0]])
	for _, k := range g.s.Perm(len(g.chunk[i])) {
		end := len(body)
		if k+1 < len(g.chunk[i]) {
			end = g.chunk[i][k+1]
		}
		b.WriteString(body[g.chunk[i][k]:end])
	}
	return b.String()
}

// genXSD generates a set of schema documents.
func genXSD(stream string, o genOpts) DocSet {
	g := &xsdGen{s: simrt.S(stream), o: o, used: map[string]bool{}}
	g.n = 1 + g.c(o.maxDocs)
	g.body = make([]strings.Builder, g.n)
	g.chunk = make([][]int, g.n)
	for i := 0; i < g.n; i++ {
		g.refs = append(g.refs, map[int]bool{})
		ns := fmt.Sprintf("urn:d%d", i)
		if i > 0 && o.split && g.p(1, 4) {
			ns = g.ns[i-1]
		}
		g.ns = append(g.ns, ns)
	}
	items := 1 + g.c(o.maxTypes)
	for i := 0; i < items; i++ {
		if o.chained {
			g.cur = i * g.n / items
		} else {
			g.cur = g.c(g.n)
		}
		g.mark()
		if g.p(1, 4) {
			g.globalDecl()
		} else {
			g.typeDecl()
		}
	}
	if g.p(2, 3) {
		g.cur = g.c(g.n)
		if o.chained {
			g.cur = g.n - 1
		}
		g.mark()
		g.globalDecl()
	}
	g.declareLater()
	set := DocSet{Kind: "generated"}
	head := ""
	if g.n > 1 && g.p(1, 8) {
		// all documents begin alike
		head = "<!--" + strings.Repeat(" Distributed under the terms of the license.", 3+g.c(100)) + " -->\n"
	}
	for i := 0; i < g.n; i++ {
		g.cur = i
		var b strings.Builder
		if head == "" && g.p(1, 4) {
			b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
		}
		b.WriteString(head)
		fmt.Fprintf(&b, `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:soapenc="http://schemas.xmlsoap.org/soap/encoding/" xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" targetNamespace=%q`, g.ns[i])
		for j := 0; j < g.n; j++ {
			fmt.Fprintf(&b, " xmlns:t%d=%q", j, g.ns[j])
		}
		b.WriteString(">\n")
		doc := Doc{Name: fmt.Sprintf("d%d.xsd", i)}
		for j := 0; j < g.n; j++ {
			if j == i || !g.refs[i][j] && !(j == i-1) {
				continue
			}
			if o.chained && j > i {
				continue
			}
			doc.Refs = append(doc.Refs, j)
			loc := ""
			if o.location != nil {
				loc = fmt.Sprintf(" schemaLocation=%q", o.location(j))
			}
			if g.ns[i] == g.ns[j] {
				if loc != "" {
					fmt.Fprintf(&b, "<xs:include%s/>\n", loc)
				}
			} else {
				fmt.Fprintf(&b, "<xs:import namespace=%q%s/>\n", g.ns[j], loc)
			}
		}
		b.WriteString(g.shuffled(i))
		b.WriteString("</xs:schema>\n")
		doc.Data = []byte(b.String())
		if !o.raw {
			doc.Data = dress(g.s, doc.Data)
		}
		set.Docs = append(set.Docs, doc)
	}
	if head != "" && g.p(1, 2) {
		// and are as long
		max := 0
		for _, d := range set.Docs {
			if len(d.Data) > max {
				max = len(d.Data)
			}
		}
		for i := range set.Docs {
			d := &set.Docs[i]
			pad := "<!--" + strings.Repeat(" ", max-len(d.Data)) + "-->"
			d.Data = append(d.Data[:len(d.Data):len(d.Data)], pad...)
		}
	}
	return set
}

// ---- corpus

type corpusFile struct {
	name string
	data []byte
}

var corpusCache []corpusFile

func (t *T) corpus() []corpusFile {
	if corpusCache == nil {
		ms, _ := filepath.Glob(filepath.Join(t.Verif, "corpus", "*"))
		sort.Strings(ms)
		for _, m := range ms {
			b, err := os.ReadFile(m)
			if err != nil {
				panic(err)
			}
			corpusCache = append(corpusCache, corpusFile{filepath.Base(m), b})
		}
		if len(corpusCache) == 0 {
			panic("empty corpus in " + t.Verif)
		}
	}
	return corpusCache
}

// companions of corpus files that import others
var companions = map[string][]string{
	"FatcaXML_v1.1.schema":   {"isofatcatypes_v1.0.schema", "oecdtypes_v4.1.schema", "stffatcatypes_v1.1.schema"},
	"CommonRecord40a.schema": {"CommonRecord40aVR.schema"},
	"USLM-1.0.schema":        {"xml.schema"},
}

// corpusSet picks a corpus document (and what it needs); filter selects by name.
func (t *T) corpusSet(stream string, maxSize int, filter func(string) bool) DocSet {
	var c []corpusFile
	for _, f := range t.corpus() {
		if len(f.data) <= maxSize && (filter == nil || filter(f.name)) {
			c = append(c, f)
		}
	}
	f := c[choose(stream, len(c))]
	set := DocSet{Kind: f.name, WSDL: strings.HasSuffix(f.name, ".wsdl")}
	set.Docs = append(set.Docs, Doc{Name: f.name, Data: f.data})
	for _, n := range companions[f.name] {
		for _, g := range t.corpus() {
			if g.name == n {
				set.Docs = append(set.Docs, Doc{Name: g.name, Data: g.data})
			}
		}
	}
	return set
}

// ---- WSDL

// genWSDL generates a WSDL document with an embedded schema.
func genWSDL(stream string, o genOpts) DocSet {
	s := simrt.S(stream)
	o.location = nil
	o.split = false
	o.raw = true
	inner := genXSD(stream+".xsd", o)
	var b strings.Builder
	tns := "urn:svc"
	fmt.Fprintf(&b, `<?xml version="1.0"?>
<wsdl:definitions name="Svc" targetNamespace=%q xmlns:tns=%q xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:http="http://schemas.xmlsoap.org/wsdl/http/" xmlns:xs="http://www.w3.org/2001/XMLSchema"`, tns, tns)
	for i := range inner.Docs {
		fmt.Fprintf(&b, " xmlns:t%d=\"urn:d%d\"", i, i)
	}
	b.WriteString(">\n<wsdl:types>\n")
	for _, d := range inner.Docs {
		x := string(d.Data)
		if i := strings.Index(x, "<xs:schema"); i > 0 {
			x = x[i:]
		}
		b.WriteString(x)
	}
	b.WriteString("</wsdl:types>\n")
	var typeNames []string
	for i, d := range inner.Docs {
		for _, line := range strings.Split(string(d.Data), "\n") {
			for _, p := range []string{"<xs:complexType name=\"", "<xs:simpleType name=\""} {
				if strings.HasPrefix(line, p) {
					n := line[len(p):]
					typeNames = append(typeNames, fmt.Sprintf("t%d:%s", i, n[:strings.Index(n, `"`)]))
				}
			}
		}
	}
	var elemNames []string
	for i, d := range inner.Docs {
		for _, els := range declaredIn(d.Data).elements {
			for n := range els {
				elemNames = append(elemNames, fmt.Sprintf("t%d:%s", i, n))
			}
		}
	}
	sort.Strings(elemNames)
	partType := func() string {
		if len(elemNames) > 0 && s.Chance(1, 8) {
			return fmt.Sprintf("element=%q", elemNames[s.Choose(len(elemNames))])
		}
		if len(typeNames) > 0 && s.Chance(1, 2) {
			return fmt.Sprintf("type=%q", typeNames[s.Choose(len(typeNames))])
		}
		return fmt.Sprintf("type=%q", "xs:"+builtins[s.Choose(len(builtins))])
	}
	var ops []string
	nops := 1 + s.Choose(5)
	opNames := []string{"Get", "Put", "List", "get", "Find", "Drop"}
	for i := 0; i < nops; i++ {
		name := opNames[(i+s.Choose(2))%len(opNames)]
		dup := false
		for _, o := range ops {
			dup = dup || strings.EqualFold(o, name)
		}
		if dup {
			name = fmt.Sprintf("Op%d", i)
		}
		ops = append(ops, name)
		for _, dir := range []string{"In", "Out"} {
			fmt.Fprintf(&b, "<wsdl:message name=\"%s%s\">\n", name, dir)
			n := s.Choose(5)
			for k := 0; k < n; k++ {
				fmt.Fprintf(&b, "<wsdl:part name=\"p%d\" %s/>\n", k, partType())
			}
			b.WriteString("</wsdl:message>\n")
		}
	}
	ports := 1 + s.Choose(3)
	for p := 0; p < ports; p++ {
		fmt.Fprintf(&b, "<wsdl:portType name=\"PT%d\">\n", p)
		for i, name := range ops {
			if i%ports != p {
				continue
			}
			fmt.Fprintf(&b, "<wsdl:operation name=%q>", name)
			if s.Chance(1, 3) {
				fmt.Fprintf(&b, "<wsdl:documentation>Op %s.</wsdl:documentation>", name)
				for s.Chance(1, 3) {
					fmt.Fprintf(&b, "<wsdl:documentation>%s &amp; more\non two lines</wsdl:documentation>", name)
				}
			}
			fmt.Fprintf(&b, "<wsdl:input message=\"tns:%sIn\"/><wsdl:output message=\"tns:%sOut\"/></wsdl:operation>\n", name, name)
		}
		b.WriteString("</wsdl:portType>\n")
	}
	for p := 0; p < ports; p++ {
		fmt.Fprintf(&b, "<wsdl:binding name=\"B%d\" type=\"tns:PT%d\">", p, p)
		if s.Chance(1, 5) {
			b.WriteString(`<http:binding verb="get"/>`)
		}
		b.WriteByte('\n')
		for i, name := range ops {
			if i%ports != p {
				continue
			}
			fmt.Fprintf(&b, "<wsdl:operation name=%q><soap:operation soapAction=\"urn:act:%s\"/></wsdl:operation>\n", name, name)
		}
		b.WriteString("</wsdl:binding>\n")
	}
	b.WriteString("<wsdl:service name=\"Svc\">")
	for k := s.Choose(3); k >= 0; k-- {
		b.WriteString("<wsdl:documentation>The service.</wsdl:documentation>\n")
	}
	for p := 0; p < ports; p++ {
		fmt.Fprintf(&b, "<wsdl:port name=\"P%d\" binding=\"tns:B%d\"><soap:address location=\"http://svc.test/p%d\"/></wsdl:port>\n", p, p, p)
	}
	b.WriteString("</wsdl:service>\n</wsdl:definitions>\n")
	return DocSet{Kind: "generated wsdl", WSDL: true, Docs: []Doc{{Name: "svc.wsdl", Data: dress(s, []byte(b.String()))}}}
}

// dress varies what carries no meaning: line breaks, comments, processing
// instructions.
func dress(s *simrt.Stream, doc []byte) []byte {
	kind := s.Choose(10)
	if kind > 5 || bytes.Contains(doc, []byte("encoding=\"x-")) {
		return doc
	}
	lines := strings.Split(string(doc), "\n")
	var b strings.Builder
	for i, l := range lines {
		b.WriteString(l)
		if i == len(lines)-1 {
			break
		}
		switch kind {
		case 0:
			b.WriteString("\r\n")
		case 1:
			b.WriteString("\r")
		case 2:
			b.WriteString("\n")
			if strings.HasSuffix(l, ">") {
				b.WriteString([]string{"", "", "\n", "\t", "<!-- note -->", "<?pi some data?>\r\n"}[s.Choose(6)])
			}
		case 3:
			b.WriteString(" \n\t")
		case 4:
			b.WriteString([]string{"\n", "\r\n", "\r"}[s.Choose(3)])
		case 5:
			if strings.HasSuffix(l, ">") {
				continue
			}
			b.WriteString("\n")
		}
	}
	return []byte(b.String())
}

func isWSDL(n string) bool   { return strings.HasSuffix(n, ".wsdl") }
func isSchema(n string) bool { return !strings.HasSuffix(n, ".wsdl") }

// anySet picks the input of a case: mostly generated, sometimes corpus.
func (t *T) anySet(o genOpts) DocSet {
	switch choose("kind", 8) {
	case 4, 5:
		return genWSDL("wsdl", o)
	case 6:
		return t.corpusSet("corpus", 30000, nil)
	case 7:
		return t.corpusSet("corpus", 30000, isSchema)
	}
	return genXSD("xsd", o)
}
