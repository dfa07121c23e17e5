package soap

import (
	"bytes"
	"encoding"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"aqwari.net/xml/internal/verifsim/scen"
	"aqwari.net/xml/internal/verifsim/simrt"
)

// C15: values of generated types go through streams that break off, fail,
// deliver in pieces, or carry damaged values.
func init() { scen.Register("C15", 60e6, c15) }

// stream delivers data as planned.
type stream struct {
	data    []byte
	end     error // after the data
	chunks  []int
	withEnd bool
	zero    bool
	delay   int64
	pos     int
	reads   int
}

func (r *stream) Read(p []byte) (int, error) {
	r.reads++
	if r.zero && r.reads%3 == 1 {
		return 0, nil
	}
	if r.delay > 0 {
		simrt.SleepFor(r.delay)
	}
	simrt.Y(0)
	if r.pos >= len(r.data) {
		return 0, r.end
	}
	n := len(p)
	if len(r.chunks) > 0 && r.chunks[r.reads%len(r.chunks)] < n {
		n = r.chunks[r.reads%len(r.chunks)]
	}
	n = copy(p[:n], r.data[r.pos:])
	r.pos += n
	if r.pos == len(r.data) && r.withEnd {
		return n, r.end
	}
	return n, nil
}

func drawStream(s *simrt.Stream, r *stream) *stream {
	switch s.Choose(6) {
	case 1:
		r.chunks = []int{1}
	case 2:
		r.chunks = []int{1 + s.Choose(60)}
	case 3:
		for i := 0; i < 8; i++ {
			r.chunks = append(r.chunks, 1+s.Choose(80))
		}
	case 4:
		r.chunks = []int{s.Choose(len(r.data)+1) + 1}
	case 5:
		r.chunks = []int{5}
		r.zero = true
	}
	r.withEnd = s.Chance(1, 3)
	return r
}

// decode decodes a value of the type from the stream.
func decode(r io.Reader, t reflect.Type) (v reflect.Value, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	v = reflect.New(t)
	err = xml.NewDecoder(r).Decode(v.Interface())
	return v, err
}

type brokenWriter struct {
	left   int
	err    error
	n      int
	failed bool
}

func (w *brokenWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		w.failed = true
		w.n += n
		return n, w.err
	}
	w.left -= len(p)
	w.n += len(p)
	return len(p), nil
}

type sample struct {
	name  string
	typ   reflect.Type
	val   reflect.Value
	text  []byte
	ref   reflect.Value
	refS  string
	strik []leaf
}

func c15(t *scen.T) {
	s := simrt.S("c15")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	pool()
	ts := typePk[s.Choose(len(typePk))]
	if s.Chance(2, 5) {
		var own []typeSet
		for _, x := range typePk {
			if authored[x.pkg.Kind] {
				own = append(own, x)
			}
		}
		if len(own) > 0 {
			ts = own[s.Choose(len(own))]
		}
	}
	t.Case(ts.pkg.Kind, ts.pkg.Label)
	var known string
	bad := false
	fail := func(class, format string, args ...any) {
		t.Fail(class, ts.pkg.Kind+" "+ts.pkg.Label+" type "+format, args...)
		bad = true
	}
	// draw a value of each of some types, and what they are when nothing fails
	var smp []*sample
	nv := 1 + s.Choose(3)
	for i := 0; i < nv; i++ {
		name := ts.names[s.Choose(len(ts.names))]
		v := reflect.ValueOf(ts.pkg.Types[name]())
		f := &filler{s: s, id: i + 1, small: s.Chance(1, 2)}
		f.fill(v.Elem(), 0)
		smp = append(smp, &sample{name: name, typ: v.Type().Elem(), val: v})
	}
	t.Sim(func() {
		for _, x := range smp {
			o := scen.Try(func() (string, error) {
				b, err := xml.Marshal(x.val.Interface())
				return string(b), err
			})
			if o.Panic != nil {
				fail("panic", "%s: encoding %s: %v\n%s", x.name, show(x.val), o.Panic, o.Stack)
				return
			}
			if o.Failed() || o.Val == "" {
				t.Count("values that cannot be encoded", 1)
				continue
			}
			x.text = []byte(o.Val)
			r, err := decode(bytes.NewReader(x.text), x.typ)
			if err != nil {
				t.Count("values that cannot be decoded", 1)
				t.Descf("  %s %s: %v", x.name, scen.Clip(x.text), err)
				x.text = nil
				continue
			}
			x.ref, x.refS = r, show(r)
			t.Case(x.name, string(x.text))
			t.Descf("  %s %s", x.name, scen.Clip(x.text))
		}
	})
	var ok []*sample
	for _, x := range smp {
		if x.text != nil {
			ok = append(ok, x)
		}
	}
	if smp = ok; len(smp) == 0 || bad {
		return
	}
	t.Nontrivial = true
	same := func(x *sample, v reflect.Value) bool {
		return reflect.DeepEqual(v.Interface(), x.ref.Interface()) || show(v) == x.refS
	}
	clean := func(x *sample, r *stream, why string) bool {
		v, err := decode(r, x.typ)
		if err != nil {
			fail("delivery changes the result", "%s: %s: error %v for %s", x.name, why, err, x.text)
		} else if !same(x, v) {
			fail("delivery changes the result", "%s: %s: %s, else %s, for %s", x.name, why, show(v), x.refS, x.text)
		}
		return bad
	}
	t.Sim(func() {
		for _, x := range smp {
			simrt.Note(scen.Hash(x.refS))
			for i := 0; i < 6; i++ {
				t.Fault("stream in pieces")
				if clean(x, drawStream(s, &stream{data: x.text, end: io.EOF}), "in pieces") {
					return
				}
			}
			// every truncation and failure
			for i, k := range positions(s, x.text, 360) {
				r := &stream{data: x.text[:k], end: io.EOF}
				mode := s.Choose(3)
				if mode > 0 {
					r.end = netErrs[s.Choose(len(netErrs))]
					r.withEnd = mode == 2
				}
				if s.Chance(1, 4) {
					r.chunks = []int{1 + s.Choose(40)}
				}
				v, err := decode(r, x.typ)
				t.Fault([]string{"stream cut off", "read fails", "read fails with data"}[mode])
				if k < len(x.text) && err == nil {
					fail("success with part of the data", "%s: a stream that ends after %d of %d bytes with %v is decoded to %s: %s", x.name, k, len(x.text), r.end, show(v), x.text[:k])
					return
				}
				if k == len(x.text) && err == nil && !same(x, v) {
					fail("delivery changes the result", "%s: %s, else %s, for %s", x.name, show(v), x.refS, x.text)
					return
				}
				if err != nil && strings.HasPrefix(err.Error(), "panic: ") {
					fail("panic", "%s: %v for %s", x.name, err, x.text[:k])
					return
				}
				if i%50 == 49 && clean(x, &stream{data: x.text, end: io.EOF}, "after failures") {
					return
				}
			}
			// every failing write
			for i := 0; i < 60; i++ {
				k := s.Choose(len(x.text))
				if i < 4 {
					k = []int{0, len(x.text) - 1, len(x.text) / 2, min(4096, len(x.text)-1)}[i]
				}
				w := &brokenWriter{left: k, err: netErrs[s.Choose(len(netErrs))]}
				err := encodeTo(w, x.val)
				t.Fault("write fails")
				if err == nil {
					fail("failed write not reported", "%s: encoding to a writer that fails after %d of %d bytes succeeds", x.name, k, len(x.text))
					return
				}
				if len(x.text) < 30 && i > len(x.text) {
					break
				}
			}
			var buf bytes.Buffer
			if err := encodeTo(&buf, x.val); err != nil || !bytes.Equal(buf.Bytes(), x.text) {
				fail("earlier failures change the encoding", "%s: %v\n%s\nelse\n%s", x.name, err, buf.Bytes(), x.text)
				return
			}
			if known2 := corrupt(t, s, x, fail); known2 != "" {
				known = known2
			}
			if bad {
				return
			}
		}
		// several values in one stream that breaks off
		if sequence(t, s, smp, fail, same) {
			return
		}
	})
	if bad {
		return
	}
	// tasks that each decode and encode, interleaved at the reads
	type job struct {
		x   *sample
		r   *stream
		cut int
		v   reflect.Value
		err error
		enc []byte
	}
	var jobs []*job
	var fns []func()
	for i := 0; i < 2+s.Choose(3); i++ {
		j := &job{x: smp[s.Choose(len(smp))], cut: -1}
		j.r = drawStream(s, &stream{data: j.x.text, end: io.EOF})
		j.r.delay = int64(s.Choose(3)) * ms
		if s.Chance(1, 3) {
			j.cut = s.Choose(len(j.x.text))
			j.r.data = j.x.text[:j.cut]
		}
		jobs = append(jobs, j)
		fns = append(fns, func() {
			j.v, j.err = decode(j.r, j.x.typ)
			if j.err == nil {
				var b bytes.Buffer
				encodeTo(&b, j.v)
				j.enc = b.Bytes()
			}
		})
	}
	encRef := map[*sample]string{}
	for _, x := range smp {
		var b bytes.Buffer
		encodeTo(&b, x.ref)
		encRef[x] = b.String()
	}
	simrt.SwitchRate([]int{4, 32, 128, 400}[s.Choose(4)])
	t.Sim(fns...)
	simrt.SwitchRate(64)
	for _, j := range jobs {
		switch {
		case j.cut >= 0 && j.err == nil:
			fail("success with part of the data", "%s: a stream that ends after %d of %d bytes is decoded among others to %s: %s", j.x.name, j.cut, len(j.x.text), show(j.v), j.x.text)
		case j.cut < 0 && j.err != nil:
			fail("delivery changes the result", "%s: decoding among others: error %v for %s", j.x.name, j.err, j.x.text)
		case j.cut < 0 && !same(j.x, j.v):
			fail("delivery changes the result", "%s: decoding among others: %s, else %s, for %s", j.x.name, show(j.v), j.x.refS, j.x.text)
		case j.cut < 0 && string(j.enc) != encRef[j.x]:
			fail("earlier failures change the encoding", "%s: encoding among others:\n%s\nelse\n%s", j.x.name, j.enc, encRef[j.x])
		}
		if bad {
			return
		}
	}
	t.Count("values", int64(len(smp)))
	if known != "" {
		t.Fail(knownItem, "%s %s type %s", ts.pkg.Kind, ts.pkg.Label, known)
	}
}

const knownItem = "damaged item of a SOAP array dropped"

func encodeTo(w io.Writer, v reflect.Value) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = nil
		}
	}()
	return xml.NewEncoder(w).Encode(v.Interface())
}

// positions returns every position of a text or, if it is long, those at
// markup and drawn ones.
func positions(s *simrt.Stream, text []byte, max int) (at []int) {
	if len(text) <= max {
		for k := 0; k <= len(text); k++ {
			at = append(at, k)
		}
		return at
	}
	for k := 1; k < len(text); k++ {
		if text[k-1] == '>' || text[k] == '<' {
			at = append(at, k)
		}
	}
	for i := range at {
		j := s.Choose(i + 1)
		at[i], at[j] = at[j], at[i]
	}
	if len(at) > max*2/3 {
		at = at[:max*2/3]
	}
	for len(at) < max {
		at = append(at, s.Choose(len(text)))
	}
	return append(at, 0, len(text))
}

// sequence decodes several elements from one stream.
func sequence(t *scen.T, s *simrt.Stream, smp []*sample, fail func(string, string, ...any), same func(*sample, reflect.Value) bool) bool {
	var text []byte
	var order []*sample
	var ends []int
	text = append(text, "<batch>"...)
	for i := 0; i < 2+s.Choose(3); i++ {
		x := smp[s.Choose(len(smp))]
		order = append(order, x)
		text = append(text, x.text...)
		ends = append(ends, len(text))
		if s.Chance(1, 3) {
			text = append(text, "\n "...)
		}
	}
	text = append(text, "</batch>"...)
	for i := 0; i < 30; i++ {
		cut := s.Choose(len(text) + 1)
		if i == 0 {
			cut = len(text)
		}
		r := drawStream(s, &stream{data: text[:cut], end: io.EOF})
		if s.Chance(1, 2) {
			r.end = netErrs[s.Choose(len(netErrs))]
		}
		t.Fault("stream of several values")
		dec := xml.NewDecoder(r)
		n := 0
		for n < len(order) {
			tok, err := dec.Token()
			if err != nil {
				break
			}
			st, isStart := tok.(xml.StartElement)
			if !isStart || st.Name.Local == "batch" && n == 0 && dec.InputOffset() == 7 {
				continue
			}
			x := order[n]
			v := reflect.New(x.typ)
			err = func() (err error) {
				defer func() {
					if p := recover(); p != nil {
						err = fmt.Errorf("panic: %v", p)
					}
				}()
				return dec.DecodeElement(v.Interface(), &st)
			}()
			whole := cut >= ends[n]
			if err == nil && !whole {
				fail("success with part of the data", "%s: element %d of a stream that ends after %d bytes is decoded to %s: %s", x.name, n, cut, show(v), text[:cut])
				return true
			}
			if err == nil && !same(x, v) {
				fail("delivery changes the result", "%s: element %d of a stream is decoded to %s, alone to %s: %s", x.name, n, show(v), x.refS, text)
				return true
			}
			if err != nil && whole && cut > ends[n] && !isSticky(r, cut, ends[n]) {
				fail("delivery changes the result", "%s: element %d of a stream: %v: %s", x.name, n, err, text)
				return true
			}
			if err != nil {
				break
			}
			n++
		}
	}
	return false
}

// isSticky: a decoder that reads ahead may have met the failure before it
// decodes an element that is complete.
func isSticky(r *stream, cut, end int) bool { return r.end != io.EOF && r.pos >= len(r.data) }

var _ = errors.New

// leaf is a place in a document with a value of a type that not every text is
// a value of.
type leaf struct {
	node  *scen.Node
	attr  int // index of the attribute, or -1
	kind  string
	item  bool // in an item of a SOAP array
	listy bool
}

var (
	umType  = reflect.TypeOf((*xml.Unmarshaler)(nil)).Elem()
	txtType = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
)

// strict tells what texts a type accepts: "" for any.
func strict(t reflect.Type) (kind string, list bool) {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Kind() == reflect.Struct && t.ConvertibleTo(timeType) {
		return "time", false
	}
	switch t.Kind() {
	case reflect.Bool:
		return "bool", false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "int", false
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "uint", false
	case reflect.Float32, reflect.Float64:
		return "float", false
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			// []byte is binary data, but also the type of a list of bytes
			if u, ok := reflect.New(t).Interface().(encoding.TextUnmarshaler); ok && numbers(u) {
				return "uint", true
			}
			return "bytes", false
		}
		if reflect.PtrTo(t).Implements(txtType) {
			k, _ := strict(t.Elem())
			return k, k != ""
		}
	}
	return "", false
}

// numbers tells whether a []byte type reads its text as a list of
// numbers, not as binary data.
func numbers(u encoding.TextUnmarshaler) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	err := u.UnmarshalText([]byte("1 2 3"))
	return err == nil && reflect.ValueOf(u).Elem().Len() == 3 && bytes.Equal(reflect.ValueOf(u).Elem().Bytes(), []byte{1, 2, 3})
}

// leaves finds the strict leaves of an element that is decoded to type t.
func leaves(n *scen.Node, t reflect.Type, item bool, out []leaf) []leaf {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if k, list := strict(t); k != "" {
		if len(n.Kids) == 0 {
			out = append(out, leaf{node: n, attr: -1, kind: k, item: item, listy: list})
		}
		return out
	}
	if t.Kind() == reflect.Slice && reflect.PtrTo(t).Implements(umType) {
		for _, k := range n.Kids {
			out = leaves(k, t.Elem(), true, out)
		}
		return out
	}
	if t.Kind() != reflect.Struct {
		return out
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("xml")
		if f.Anonymous && tag == "" {
			out = leaves(n, f.Type, item, out)
			continue
		}
		if f.PkgPath != "" || f.Name == "XMLName" || tag == "-" {
			continue
		}
		opts := strings.Split(tag, ",")
		name := opts[0]
		if i := strings.IndexByte(name, ' '); i >= 0 {
			name = name[i+1:]
		}
		has := func(o string) bool {
			for _, x := range opts[1:] {
				if x == o {
					return true
				}
			}
			return false
		}
		ft := f.Type
		switch {
		case has("chardata"):
			if k, list := strict(ft); k != "" && len(n.Kids) == 0 {
				out = append(out, leaf{node: n, attr: -1, kind: k, item: item, listy: list})
			}
			continue
		case has("any") || has("innerxml") || has("comment") || has("cdata"):
			continue
		}
		if name == "" {
			name = f.Name
		}
		if has("attr") {
			for j, a := range n.Attrs {
				if a.Name.Local == name && a.Name.Space != "xmlns" {
					if k, list := strict(ft); k != "" {
						out = append(out, leaf{node: n, attr: j, kind: k, item: item, listy: list})
					}
				}
			}
			continue
		}
		// a repeated element
		for ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		if ft.Kind() == reflect.Slice && ft.Elem().Kind() != reflect.Uint8 && !reflect.PtrTo(ft).Implements(umType) && !reflect.PtrTo(ft).Implements(txtType) {
			ft = ft.Elem()
		}
		cur := []*scen.Node{n}
		for _, step := range strings.Split(name, ">") {
			var next []*scen.Node
			for _, c := range cur {
				for _, k := range c.Kids {
					if k.Name.Local == step {
						next = append(next, k)
					}
				}
			}
			cur = next
		}
		for _, k := range cur {
			out = leaves(k, ft, item, out)
		}
	}
	return out
}

// write serialises an element.
func write(b *bytes.Buffer, n *scen.Node) {
	fmt.Fprintf(b, "<%s", n.Name.Local)
	fmt.Fprintf(b, ` xmlns="%s"`, esc(n.Name.Space))
	q := 0
	for _, a := range n.Attrs {
		switch {
		case a.Name.Space == "" && a.Name.Local == "xmlns":
		case a.Name.Space == "xmlns":
			fmt.Fprintf(b, ` xmlns:%s="%s"`, a.Name.Local, esc(a.Value))
		case a.Name.Space == "":
			fmt.Fprintf(b, ` %s="%s"`, a.Name.Local, esc(a.Value))
		default:
			fmt.Fprintf(b, ` xmlns:vq%d="%s" vq%d:%s="%s"`, q, esc(a.Name.Space), q, a.Name.Local, esc(a.Value))
			q++
		}
	}
	b.WriteString(">")
	if len(n.Kids) == 0 || strings.TrimSpace(n.Text) != "" {
		b.WriteString(esc(n.Text))
	}
	for _, k := range n.Kids {
		write(b, k)
	}
	fmt.Fprintf(b, "</%s>", n.Name.Local)
}

// corrupt replaces the texts of strict leaves.
func corrupt(t *scen.T, s *simrt.Stream, x *sample, fail func(string, string, ...any)) (known string) {
	root := scen.ParseNode(x.text)
	if root == nil {
		return ""
	}
	var b bytes.Buffer
	write(&b, root)
	if v, err := decode(bytes.NewReader(b.Bytes()), x.typ); err != nil || show(v) != x.refS {
		t.Count("values that cannot be rewritten", 1)
		return ""
	}
	ls := leaves(root, x.typ, false, nil)
	for i := 0; i < 40 && len(ls) > 0; i++ {
		l := ls[s.Choose(len(ls))]
		if i < len(ls) && len(ls) <= 40 {
			l = ls[i]
		}
		p := &l.node.Text
		if l.attr >= 0 {
			p = &l.node.Attrs[l.attr].Value
		}
		old := *p
		var bads []string
		switch l.kind {
		case "int":
			bads = []string{"@@", "12x", "1.5", "99999999999999999999999", "one", "0x1F"}
		case "uint":
			bads = []string{"@@", "-1", "3 4x", "99999999999999999999999", "--1"}
		case "float":
			bads = []string{"@@", "1,5", "1.5.2", "12e", "x1"}
		case "bool":
			bads = []string{"@@", "yes", "truefalse", "2"}
		case "time":
			bads = []string{"@@", "yesterday", "20x4-01-01T00:00:00Z", "2024-13-45T99:00:00Z", "--"}
		case "bytes":
			bads = []string{"@@", "0g=", "!", "=", "ABC$"}
		}
		*p = bads[s.Choose(len(bads))]
		if l.listy && old != "" && s.Chance(1, 2) {
			if s.Chance(1, 2) {
				*p = old + " " + *p
			} else {
				*p = *p + " " + old
			}
		} else if l.kind == "bytes" && old != "" && s.Chance(1, 2) {
			*p = []string{old[:len(old)-1], old[:len(old)/2] + "@" + old[len(old)/2:], old + "@"}[s.Choose(3)]
		} else if !l.listy && l.kind != "bytes" && old != "" && s.Chance(1, 4) {
			*p = old + "@"
		}
		b.Reset()
		write(&b, root)
		v, err := decode(drawStream(s, &stream{data: append([]byte(nil), b.Bytes()...), end: io.EOF}), x.typ)
		now := *p
		*p = old
		t.Fault("damaged " + l.kind)
		if err != nil && strings.HasPrefix(err.Error(), "panic: ") {
			fail("panic", "%s: %v for %s", x.name, err, b.Bytes())
			return
		}
		if err != nil {
			continue
		}
		where := "element " + l.node.Name.Local
		if l.attr >= 0 {
			where = "attribute " + l.node.Attrs[l.attr].Name.Local + " of " + where
		}
		msg := fmt.Sprintf("%s: %q as the %s of %s is decoded without an error to %s: %s", x.name, now, l.kind, where, show(v), b.Bytes())
		if l.item {
			known = msg
			continue
		}
		fail("damaged value accepted", "%s", msg)
		return
	}
	return known
}
