package scen

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// genXML generates an XML document: nested elements with namespace
// declarations at every level, attributes, text, comments and character data.
func genXML(stream string, maxElems int) []byte {
	s := simrt.S(stream)
	var b strings.Builder
	left := 1 + s.Choose(maxElems)
	uris := []string{"urn:a", "urn:b", "urn:c", "http://x.test/y"}
	prefixes := []string{"", "p", "q", "t0"}
	type scope map[string]string
	var elem func(sc scope, depth int)
	text := func() {
		switch s.Choose(12) {
		case 7:
			b.WriteString("\r")
		case 8:
			b.WriteString("line\r\nother\rlast")
		case 9:
			b.WriteString("a&#13;b&#x9;\t")
		case 10:
			b.WriteString("<?pi data?>")
		case 11:
			b.WriteString("x > y ]] 'z' \"q\"")
		case 0:
			b.WriteString("some text")
		case 1:
			b.WriteString(" a &amp; b &lt; c ")
		case 2:
			b.WriteString("<![CDATA[raw < data & more]]>")
		case 3:
			b.WriteString("<!-- note -->")
		case 4:
			b.WriteString("\n  ")
		case 5:
			b.WriteString("42")
		}
	}
	elem = func(sc scope, depth int) {
		left--
		inner := scope{}
		for k, v := range sc {
			inner[k] = v
		}
		var decls []string
		for i := 0; i < 2; i++ {
			if s.Chance(1, 3) || depth == 0 && i == 0 {
				p := prefixes[s.Choose(len(prefixes))]
				u := uris[s.Choose(len(uris))]
				dup := false
				for _, d := range decls {
					dup = dup || strings.HasPrefix(d, xmlnsAttr(p)+"=")
				}
				if !dup {
					decls = append(decls, fmt.Sprintf("%s=%q", xmlnsAttr(p), u))
					inner[p] = u
				}
			}
		}
		name := names[s.Choose(len(names))]
		p := prefixes[s.Choose(len(prefixes))]
		if _, ok := inner[p]; ok && p != "" {
			name = p + ":" + name
		}
		b.WriteString("<" + name)
		for _, d := range decls {
			b.WriteString(" " + d)
		}
		seen := map[string]bool{}
		for i := 0; i < s.Choose(4); i++ {
			a := names[s.Choose(len(names))]
			if seen[a] {
				continue
			}
			seen[a] = true
			v := []string{"1", "text", "p:name", "q:x", "true", " sp  ", "", "a\tb"}[s.Choose(8)]
			if s.Chance(1, 6) {
				fmt.Fprintf(&b, "\n  %s = '%s'", a, v)
				continue
			}
			fmt.Fprintf(&b, " %s=\"%s\"", a, v)
		}
		n := s.Choose(5)
		if n == 0 || left <= 0 || depth > 12 {
			if s.Chance(1, 2) {
				b.WriteString("/>")
				return
			}
			b.WriteString(">")
			text()
			b.WriteString("</" + name + ">")
			return
		}
		b.WriteString(">")
		for i := 0; i < n && left > 0; i++ {
			if s.Chance(1, 3) {
				text()
			}
			from := b.Len()
			elem(inner, depth+1)
			if s.Chance(1, 8) {
				b.WriteString(b.String()[from:]) // one more of the same
			}
		}
		b.WriteString("</" + name + ">")
	}
	if s.Chance(1, 4) {
		b.WriteString("<?xml version=\"1.0\"?>\n")
	}
	elem(scope{}, 0)
	if s.Chance(1, 4) {
		b.WriteByte('\n')
	}
	return dress(s, []byte(b.String()))
}

func xmlnsAttr(p string) string {
	if p == "" {
		return "xmlns"
	}
	return "xmlns:" + p
}

// encodings the parser accepts besides utf-8
var encodings = []string{"iso-8859-1", "windows-1252", "us-ascii", "koi8-r", "shift_jis", "gbk"}

// recode gives an ASCII document another declared encoding and, for single
// byte encodings, puts bytes outside ASCII into text and attribute values.
func recode(s *simrt.Stream, doc []byte) []byte {
	enc := encodings[s.Choose(len(encodings))]
	t := string(doc)
	if strings.HasPrefix(t, "<?xml") {
		t = t[strings.Index(t, "?>")+2:]
		t = strings.TrimPrefix(t, "\n")
	}
	if enc != "shift_jis" && enc != "gbk" && enc != "us-ascii" {
		t = strings.ReplaceAll(t, "some text", "some \xe9\xfc text")
		t = strings.ReplaceAll(t, "About", "Abo\xe4ut")
	}
	nl := "\n"
	if s.Chance(1, 3) {
		nl = ""
	}
	return []byte(fmt.Sprintf("<?xml version=\"1.0\" encoding=%q?>%s%s", enc, nl, t))
}

func xsdName(local string) xml.Name { return xml.Name{Space: "urn:d0", Local: local} }
