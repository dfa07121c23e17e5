package scen

import (
	"bytes"
	"fmt"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// Storage and transfer faults of documents.

// spanKind selects the fragments of a document that are lost, repeated or
// misplaced: blocks of the storage, or what a record of an editor or a
// database that keeps XML would hold.
type spanKind int

const (
	spanBlock spanKind = iota
	spanLine
	spanValue // of an attribute, without quotes
	spanAttr  // with the blank before it
	spanName  // of an element, in its start tag
	spanTag   // anything from < to >
	spanElem  // with its content
	spanText
	nSpans
)

var spanNames = []string{"block", "line", "attribute value", "attribute", "element name", "tag", "element", "text"}

// spans lists the fragments of a kind; it expects nothing of the document.
func spans(b []byte, k spanKind, block int) [][2]int {
	var out [][2]int
	switch k {
	case spanBlock:
		for i := 0; i < len(b); i += block {
			out = append(out, [2]int{i, min(i+block, len(b))})
		}
		return out
	case spanLine:
		for i := 0; i < len(b); {
			j := bytes.IndexByte(b[i:], '\n')
			if j < 0 {
				j = len(b) - i - 1
			}
			out = append(out, [2]int{i, i + j + 1})
			i += j + 1
		}
		return out
	}
	var open [][2]int // start of tag, end of name
	text := 0
	for i := 0; i < len(b); i++ {
		if b[i] != '<' {
			continue
		}
		if k == spanText && i > text {
			out = append(out, [2]int{text, i})
		}
		start := i
		if i+3 < len(b) && string(b[i:i+4]) == "<!--" {
			j := bytes.Index(b[i+4:], []byte("-->"))
			if j < 0 {
				break
			}
			if k == spanTag {
				out = append(out, [2]int{i, i + 4 + j + 3})
			}
			i += 4 + j + 2
			text = i + 1
			continue
		}
		// the tag ends at a > outside quotes
		j, q, attr := i+1, byte(0), 0
		nameEnd := 0
		for ; j < len(b); j++ {
			c := b[j]
			switch {
			case q != 0:
				if c == q {
					if k == spanValue {
						out = append(out, [2]int{attr, j})
					}
					q = 0
					if k == spanAttr {
						from := attr
						for from > i && b[from] != ' ' && b[from] != '\n' && b[from] != '\t' {
							from--
						}
						out = append(out, [2]int{from, j + 1})
					}
				}
				continue
			case c == '"' || c == '\'':
				q, attr = c, j+1
				continue
			case nameEnd == 0 && (c == ' ' || c == '\n' || c == '/' && j > i+1 || c == '>' || c == '\t' || c == '\r'):
				nameEnd = j
			}
			if c == '>' {
				break
			}
		}
		if j >= len(b) {
			break
		}
		if k == spanTag {
			out = append(out, [2]int{start, j + 1})
		}
		switch {
		case i+1 < len(b) && (b[i+1] == '?' || b[i+1] == '!'):
		case i+1 < len(b) && b[i+1] == '/':
			if n := len(open); n > 0 {
				if k == spanElem {
					out = append(out, [2]int{open[n-1][0], j + 1})
				}
				open = open[:n-1]
			}
		default:
			if k == spanName {
				out = append(out, [2]int{i + 1, nameEnd})
			}
			if b[j-1] == '/' {
				if k == spanElem {
					out = append(out, [2]int{start, j + 1})
				}
			} else {
				open = append(open, [2]int{start, nameEnd})
			}
		}
		i = j
		text = j + 1
	}
	return out
}

// renamed replaces an element's name in its start tag and its end tag.
func renamed(b []byte, sp [2]int, name []byte) []byte {
	old := b[sp[0]:sp[1]]
	out := append([]byte(nil), b[:sp[0]]...)
	out = append(out, name...)
	depth := 0
	for _, t := range spans(b[sp[0]-1:], spanTag, 0) {
		tag := b[sp[0]-1+t[0] : sp[0]-1+t[1]]
		rest := append([]byte("</"), old...)
		switch {
		case bytes.HasPrefix(tag, rest) && !nameByte(tag, len(rest)):
			depth--
			if depth == 0 {
				at := sp[0] - 1 + t[0] + 2
				out = append(out, b[sp[1]:at]...)
				out = append(out, name...)
				return append(out, b[at+len(old):]...)
			}
		case bytes.HasPrefix(tag, rest[:1]) && bytes.HasPrefix(tag[1:], old) && !nameByte(tag, 1+len(old)):
			if tag[len(tag)-2] != '/' {
				depth++
			} else if depth == 0 {
				return append(out, b[sp[1]:]...)
			}
		}
	}
	return append(out, b[sp[1]:]...)
}

func nameByte(b []byte, i int) bool {
	if i >= len(b) {
		return false
	}
	c := b[i]
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.' || c == ':'
}

func splice(b []byte, sp [2]int, by []byte) []byte {
	out := make([]byte, 0, len(b)+len(by))
	out = append(out, b[:sp[0]]...)
	out = append(out, by...)
	return append(out, b[sp[1]:]...)
}

// damage applies one fault to a document; other is an older version of it or
// another file of the same disk.
func (t *T) damage(s *simrt.Stream, b, other []byte) []byte {
	if len(b) == 0 || len(b) > 1<<19 {
		return b
	}
	if s.Chance(1, 6) {
		if out := t.damageNumber(s, b); out != nil {
			return out
		}
	}
	if s.Chance(1, 6) {
		if out := t.damageRef(s, b); out != nil {
			return out
		}
	}
	if s.Chance(1, 6) {
		if out := t.damageParts(s, b); out != nil {
			return out
		}
	}
	if s.Chance(1, 30) {
		if out := t.nest(s, b); out != nil {
			return out
		}
	}
	k := spanKind(s.Choose(int(nSpans)))
	block := []int{16, 64, 4, 200, 512}[s.Choose(5)]
	own := spans(b, k, block)
	if len(own) == 0 {
		k, own = spanBlock, spans(b, spanBlock, block)
	}
	sp := own[s.Choose(len(own))]
	what := spanNames[k]
	switch s.Choose(12) {
	default: // another fragment of the document in its place
		from := own[s.Choose(len(own))]
		t.Fault(what + " replaced by another")
		if k == spanName {
			return renamed(b, sp, b[from[0]:from[1]])
		}
		return splice(b, sp, b[from[0]:from[1]])
	case 4:
		t.Fault(what + " lost")
		if k == spanName {
			return renamed(b, sp, nil)
		}
		return splice(b, sp, nil)
	case 5:
		t.Fault(what + " written twice")
		return splice(b, [2]int{sp[1], sp[1]}, b[sp[0]:sp[1]])
	case 6:
		// the fragment at the same place of the other file
		of := spans(other, k, block)
		if len(of) == 0 {
			return b
		}
		from := of[s.Choose(len(of))]
		t.Fault(what + " of another file")
		if k == spanName {
			return renamed(b, sp, other[from[0]:from[1]])
		}
		return splice(b, sp, other[from[0]:from[1]])
	case 7:
		fill := []byte{' ', 0, 0xff, 'a', '0'}[s.Choose(5)]
		t.Fault(what + " overwritten")
		return splice(b, sp, bytes.Repeat([]byte{fill}, sp[1]-sp[0]))
	case 8:
		n := 1 + s.Choose(3)
		out := append([]byte(nil), b...)
		for i := 0; i < n; i++ {
			at := sp[0] + s.Choose(sp[1]-sp[0]+1)
			if at < len(out) {
				out[at] ^= 1 << uint(s.Choose(8))
			}
		}
		t.Fault("bits flipped")
		return out
	case 9:
		// a write over an older, longer or shorter version that was torn
		cut := sp[0]
		t.Fault("torn write")
		if s.Chance(1, 2) || cut > len(other) {
			return append([]byte(nil), b[:cut]...)
		}
		return append(append([]byte(nil), b[:cut]...), other[cut:]...)
	case 10:
		frag := b[sp[0]:sp[1]]
		n := []int{2, 10, 100, 998, 1003, 2990, 3005, 6000}[s.Choose(8)]
		if len(frag)*n > 24000 {
			// the time that parsers take grows with the square
			n = 1 + 24000/(len(frag)+1)
		}
		t.Fault(fmt.Sprintf("%s written many times", what))
		return splice(b, [2]int{sp[1], sp[1]}, bytes.Repeat(frag, n))
	case 11:
		// part of the fragment is lost
		n := s.Choose(sp[1] - sp[0] + 1)
		t.Fault(what + " cut")
		return splice(b, [2]int{sp[0] + n, sp[1]}, nil)
	}
}

// damageNumber damages an attribute that holds a number or a truth value.
func (t *T) damageNumber(s *simrt.Stream, b []byte) []byte {
	all := spans(b, spanValue, 0)
	var typed [][2]int
	for _, sp := range all {
		v := string(b[sp[0]:sp[1]])
		if v == "" || len(v) > 12 {
			continue
		}
		switch {
		case v == "true", v == "false", v == "unbounded", v[0] >= '0' && v[0] <= '9', v[0] == '-':
			typed = append(typed, sp)
		}
	}
	if len(typed) == 0 {
		return nil
	}
	sp := typed[s.Choose(len(typed))]
	by := b[sp[0]:sp[1]]
	switch s.Choose(6) {
	case 0:
		from := all[s.Choose(len(all))]
		by = b[from[0]:from[1]]
	case 1:
		by = nil
	case 2:
		by = by[:s.Choose(len(by))]
	case 3:
		by = bytes.Repeat(by, 2+s.Choose(30))
	case 4:
		by = append([]byte(nil), by...)
		by[s.Choose(len(by))] ^= 1 << uint(s.Choose(8))
	case 5:
		by = bytes.Repeat([]byte{[]byte{' ', '0', 'a', '-'}[s.Choose(4)]}, len(by))
	}
	t.Fault("number or truth value damaged")
	return splice(b, sp, by)
}

// damageParts damages an attribute value that has parts, where they meet:
// prefixes of names, lists of names, brackets, paths, addresses.
func (t *T) damageParts(s *simrt.Stream, b []byte) []byte {
	sep := func(c byte) bool {
		switch c {
		case ':', ' ', '[', ']', ',', '#', '/', '.', '-', '{', '}', '?', '=':
			return true
		}
		return false
	}
	var parted [][2]int
	for _, sp := range spans(b, spanValue, 0) {
		for i := sp[0]; i < sp[1]; i++ {
			if sep(b[i]) {
				parted = append(parted, sp)
				break
			}
		}
	}
	if len(parted) == 0 {
		return nil
	}
	sp := parted[s.Choose(len(parted))]
	var at []int
	for i := sp[0]; i < sp[1]; i++ {
		if sep(b[i]) {
			at = append(at, i)
		}
	}
	i := at[s.Choose(len(at))]
	t.Fault("value damaged where its parts meet")
	switch s.Choose(8) {
	case 0: // the rest is lost
		return splice(b, [2]int{i + 1, sp[1]}, nil)
	case 1:
		return splice(b, [2]int{i, sp[1]}, nil)
	case 2: // what comes before is lost
		return splice(b, [2]int{sp[0], i}, nil)
	case 3:
		return splice(b, [2]int{sp[0], i + 1}, nil)
	case 4: // the separator is lost
		return splice(b, [2]int{i, i + 1}, nil)
	case 5: // or written again
		return splice(b, [2]int{i, i}, bytes.Repeat(b[i:i+1], 1+s.Choose(3)))
	case 6: // or all that there is
		return splice(b, sp, b[i:i+1])
	default: // or another one
		j := at[s.Choose(len(at))]
		return splice(b, [2]int{i, i + 1}, []byte{b[j], ':', ' ', '[', ']'}[s.Choose(5):][:1])
	}
}

// damageRef makes a reference point to another declaration, perhaps the one
// that it is part of.
func (t *T) damageRef(s *simrt.Stream, b []byte) []byte {
	attr := func(sp [2]int) string {
		end := sp[0] - 1 // the quote
		for end > 0 && (b[end-1] == '=' || b[end-1] == ' ') {
			end--
		}
		from := end
		for from > 0 && nameByte(b, from-1) {
			from--
		}
		return string(b[from:end])
	}
	var refs [][2]int
	var decls []int
	all := spans(b, spanValue, 0)
	for i, sp := range all {
		switch attr(sp) {
		case "ref", "base", "type", "itemType", "memberTypes", "element", "message", "binding", "substitutionGroup":
			refs = append(refs, sp)
		case "name":
			decls = append(decls, i)
		}
	}
	if len(refs) == 0 || len(decls) == 0 {
		return nil
	}
	sp := refs[s.Choose(len(refs))]
	var d [2]int
	if s.Chance(1, 2) {
		// a declaration around it or shortly before
		var before []int
		for _, i := range decls {
			if all[i][1] < sp[0] {
				before = append(before, i)
			}
		}
		if len(before) == 0 {
			return nil
		}
		d = all[before[len(before)-1-s.Choose(min(len(before), 4))]]
	} else {
		d = all[decls[s.Choose(len(decls))]]
	}
	old := b[sp[0]:sp[1]]
	by := b[d[0]:d[1]]
	if i := bytes.IndexByte(old, ':'); i >= 0 {
		by = append(append([]byte(nil), old[:i+1]...), by...)
	}
	t.Fault("reference to another declaration")
	return splice(b, sp, by)
}

// nest puts many elements around nothing into the document.
func (t *T) nest(s *simrt.Stream, b []byte) []byte {
	tags := spans(b, spanTag, 0)
	if len(tags) == 0 {
		return nil
	}
	sp := tags[s.Choose(len(tags))]
	n := []int{20, 900, 2980, 3010, 400000}[s.Choose(5)]
	in := bytes.Repeat([]byte("<n>"), n)
	if !s.Chance(1, 4) {
		in = append(in, bytes.Repeat([]byte("</n>"), n)...)
	}
	t.Fault("elements nested deeply")
	return splice(b, [2]int{sp[1], sp[1]}, in)
}
