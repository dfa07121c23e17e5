package soap

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
)

const envSpace = "http://schemas.xmlsoap.org/soap/envelope/"

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// envelope wraps the content of a body; style varies how it is written.
func envelope(s *simrt.Stream, body string) string {
	p := []string{"soap", "SOAP-ENV", "e", ""}[s.Choose(4)]
	q, decl := p+":", "xmlns:"+p
	if p == "" {
		q, decl = "", "xmlns"
	}
	head := ""
	switch s.Choose(5) {
	case 1:
		head = "<" + q + "Header/>"
	case 2:
		head = "<" + q + `Header><t:trace xmlns:t="urn:trace">abc</t:trace></` + q + "Header>"
	case 3:
		head = "\n  <!-- no header -->\n  "
	}
	pro := []string{"", `<?xml version="1.0" encoding="UTF-8"?>` + "\n", `<?xml version="1.0"?>`, "\n"}[s.Choose(4)]
	if pro == "\n" {
		pro = ""
	}
	return pro + "<" + q + "Envelope " + decl + `="` + envSpace + `">` + head + "<" + q + "Body>" + body + "</" + q + "Body></" + q + "Envelope>"
}

// results returns the types of the values of an operation, by part of its
// output message, and whether they can be told.
func (o clientOp) results() []reflect.Type {
	n := o.typ.NumOut() - 1
	var out []reflect.Type
	for i := 0; i < n; i++ {
		out = append(out, o.typ.Out(i))
	}
	if n == 1 && len(o.op.Out) > 1 && out[0].Kind() == reflect.Struct && out[0].NumField() == len(o.op.Out) {
		t := out[0]
		out = nil
		for i := 0; i < t.NumField(); i++ {
			out = append(out, t.Field(i).Type)
		}
	}
	return out
}

// answer draws a response to the operation: the content of the body, in the
// form that the operation's own request has (mirrored), or in that of WSDL.
func (o clientOp) answer(f *filler, mirrored bool) string {
	ts := o.results()
	var parts bytes.Buffer
	for i, t := range ts {
		if i >= len(o.op.Out) {
			break
		}
		v := reflect.New(t)
		f.fill(v.Elem(), 0)
		space := o.op.NS
		if !mirrored {
			space = ""
		}
		enc := xml.NewEncoder(&parts)
		if err := enc.EncodeElement(v.Interface(), xml.StartElement{Name: xml.Name{Space: space, Local: o.op.Out[i]}}); err != nil {
			return ""
		}
		enc.Flush()
	}
	if mirrored {
		return fmt.Sprintf(`<%s xmlns="%s"><%s>%s</%s></%s>`, o.op.Name, esc(o.op.NS), o.op.OutMsg, parts.String(), o.op.OutMsg, o.op.Name)
	}
	return fmt.Sprintf(`<m:%sResponse xmlns:m="%s">%s</m:%sResponse>`, o.op.Name, esc(o.op.NS), parts.String(), o.op.Name)
}

// fault draws the content of the body of a response with a Fault.
type fault struct{ code, text string }

func (f fault) write(s *simrt.Stream, before string) string {
	text := esc(f.text)
	if s.Chance(1, 4) && !strings.Contains(f.text, "]]>") {
		text = "<![CDATA[" + f.text + "]]>"
	} else if s.Chance(1, 4) {
		var b strings.Builder
		for _, r := range f.text {
			fmt.Fprintf(&b, "&#%d;", r)
		}
		text = b.String()
	}
	kids := []string{"<faultcode>" + esc(f.code) + "</faultcode>", "<faultstring>" + text + "</faultstring>"}
	if s.Chance(1, 3) {
		kids[1] = `<faultstring xml:lang="en">` + text + "</faultstring>"
	}
	switch s.Choose(4) {
	case 1:
		kids = append(kids, "<detail>more</detail>")
	case 2:
		kids = append(kids, `<detail><d:reason xmlns:d="urn:d">deep<x/></d:reason></detail>`)
	case 3:
		kids = append(kids, "<faultactor>urn:actor</faultactor>", "<detail/>")
	}
	if s.Chance(1, 4) {
		for i, j := range s.Perm(len(kids)) {
			kids[i], kids[j] = kids[j], kids[i]
		}
	}
	sep := []string{"", "\n  ", "<!-- c -->"}[s.Choose(3)]
	after := ""
	if s.Chance(1, 4) {
		before, after = "", before
	}
	return before + `<f:Fault xmlns:f="` + envSpace + `">` + sep + strings.Join(kids, sep) + sep + "</f:Fault>" + after
}
