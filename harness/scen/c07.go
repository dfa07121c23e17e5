package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"syscall"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xmltree"
)

// C07: a tree is encoded to writers that fail: for small encodings at every
// byte position, for larger ones at drawn positions and at every write call
// boundary; the write fails whole or in part, for good or for a while.
func init() { register("C07", 60e6, c07) }

// recorder notes where each write call ends.
type recorder struct {
	buf  bytes.Buffer
	ends []int
}

func (r *recorder) Write(p []byte) (int, error) {
	n, _ := r.buf.Write(p)
	r.ends = append(r.ends, r.buf.Len())
	return n, nil
}

// stringRecorder is a recorder with the other writing methods that writers
// commonly have.
type flakyFull struct{ *faultWriter }

func (w flakyFull) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w flakyFull) WriteByte(c byte) error            { _, err := w.Write([]byte{c}); return err }

func c07(t *T) {
	s := simrt.S("c07")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	var doc []byte
	switch s.Choose(6) {
	case 0:
		doc = genXSD("xsd", genOpts{maxDocs: 1, maxTypes: 3}).Docs[0].Data
	case 1:
		doc = t.corpusSet("corpus", 4000, nil).Docs[0].Data
	default:
		doc = genXML("xml", 14)
	}
	root, err := xmltree.Parse(append([]byte(nil), doc...))
	if err != nil {
		t.Case(string(doc))
		return
	}
	el := root
	if s.Choose(3) == 2 {
		el = at(root, s.Choose(40))
	}
	if s.Choose(4) == 3 {
		// a modified tree
		x := at(root, s.Choose(40))
		x.SetAttr("", "added", "value")
		if s.Choose(2) == 1 && len(x.Children) > 1 {
			x.Children = x.Children[1:]
		}
	}
	var full []byte
	var rec recorder
	var o Outcome
	t.Sim(func() {
		o = Try(func() (string, error) {
			full = xmltree.Marshal(el)
			return "", xmltree.Encode(&rec, el)
		})
	})
	t.Case(string(full))
	t.Descf("document %s\n  encoding of %d bytes in %d writes: %q", clip(doc), len(full), len(rec.ends), clip(full))
	if o.Failed() {
		t.Fail("encoding to a faultless writer fails", "%s", o)
		return
	}
	if !bytes.Equal(full, rec.buf.Bytes()) {
		t.Fail("encodings differ", "Encode to a faultless writer is not Marshal: %s", diff(string(full), rec.buf.String()))
		return
	}
	if len(full) > 0 {
		t.Nontrivial = true
	}
	// positions: every byte, or every end of a write and some more
	var pos []int
	if len(full) <= 300 {
		for i := 0; i < len(full); i++ {
			pos = append(pos, i)
		}
		t.Count("trees with every position enumerated", 1)
	} else {
		step := len(rec.ends)/150 + 1
		for i := s.Choose(step); i < len(rec.ends); i += step {
			if e := rec.ends[i]; e < len(full) {
				pos = append(pos, e)
			}
		}
		for i := 0; i < 60; i++ {
			pos = append(pos, s.Choose(len(full)))
		}
	}
	errs := []error{errInjected, io.ErrShortWrite, io.ErrClosedPipe, syscall.ENOSPC, syscall.EPIPE}
	for _, p := range pos {
		w := &faultWriter{failAt: p, fails: []int{-1, 1, 2, 5}[s.Choose(4)], short: s.Choose(2) == 1, err: errs[s.Choose(len(errs))]}
		var wr io.Writer = w
		wide := s.Choose(4) == 3
		if wide {
			wr = flakyFull{w}
		}
		var err error
		n := len(t.Fails)
		t.Sim(func() { err = xmltree.Encode(wr, el) })
		if len(t.Fails) > n {
			return
		}
		kind := "writes fail for good"
		if w.fails > 0 {
			kind = fmt.Sprintf("%d writes fail, then recover", w.fails)
		}
		if w.short {
			kind += ", in part"
		}
		t.Fault(kind)
		if w.failed == 0 {
			t.Fail("not written", "the writer should have met byte %d of %d, but accepted %q with err %v", p, len(full), w.buf.String(), err)
			return
		}
		if err == nil {
			t.Fail("write error lost", "a write at byte %d of %d failed with %q (%s), Encode returned nil; accepted %q", p, len(full), w.err, kind, w.buf.String())
			return
		}
		if !errors.Is(err, w.err) {
			t.Fail("other error returned", "a write at byte %d of %d failed with %q (%s), Encode returned %q", p, len(full), w.err, kind, err)
			return
		}
		if acc := w.buf.Bytes()[:w.atFirst]; !bytes.HasPrefix(full, acc) {
			t.Fail("not a prefix", "before the failing write at byte %d of %d the writer accepted %q", p, len(full), acc)
			return
		}
	}
	// a faultless writer again: the failures left nothing behind
	var again recorder
	var err2 error
	t.Sim(func() { err2 = xmltree.Encode(&again, el) })
	if err2 != nil || !bytes.Equal(again.buf.Bytes(), full) {
		t.Fail("encodings differ", "after failed encodings: err %v: %s", err2, diff(string(full), again.buf.String()))
	}
}
