package scen

import (
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xsd"
)

// C03: documents delivered to the parser out of order, more than once or not
// at all.  The reference is the model of the complete set in the generated
// order; declared types are compared by name, with anonymous types described
// where they are used.
func init() { register("C03", 60e6, c03) }

type modelOutcome struct {
	Outcome
	types map[string]string
}

func parseCanon(decl declared, docs [][]byte) modelOutcome {
	var m modelOutcome
	m.Outcome = Try(func() (string, error) {
		ss, err := xsd.Parse(docs...)
		if err != nil {
			return "", err
		}
		m.types = canonTypes(ss, decl)
		return fmt.Sprint(len(m.types)), nil
	})
	return m
}

func diffTypes(want, got map[string]string, subset bool) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	if !subset {
		for k := range want {
			if _, ok := got[k]; !ok {
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, ok := want[k]
		g, ok2 := got[k]
		switch {
		case subset && strings.HasSuffix(k, " _self"):
			// its elements are those of the documents at hand
			for _, l := range strings.Split(g, "\n") {
				if !strings.Contains(w, l) {
					return fmt.Sprintf("top-level elements of %s: %s", k, diff(w, g))
				}
			}
		case !ok:
			return fmt.Sprintf("type %s only when faulty:\n%s", k, g)
		case !ok2:
			return fmt.Sprintf("type %s is gone", k)
		case w != g:
			return fmt.Sprintf("type %s: %s", k, diff(w, g))
		}
	}
	return ""
}

// absent looks for something that the documents at hand declare and the model
// of all documents has, but not theirs.
func absent(want, got map[string]string, here declared) string {
	var gone []string
	for k := range here.types {
		id := k.Space + " " + k.Local
		if _, ok := want[id]; ok {
			if _, ok := got[id]; !ok {
				gone = append(gone, "type "+id)
			}
		}
	}
	for ns, els := range here.elements {
		w, g := want[ns+" _self"], got[ns+" _self"]
		for n := range els {
			if line := " " + n + "} doc "; strings.Contains(w, line) && !strings.Contains(g, line) {
				gone = append(gone, "element "+ns+" "+n)
			}
		}
	}
	sort.Strings(gone)
	return strings.Join(gone, ", ")
}

func c03(t *T) {
	var set DocSet
	switch choose("kind", 12) {
	case 11:
		set = t.corpusSet("corpus", 200000, func(n string) bool { return companions[n] != nil })
	default:
		set = genXSD("xsd", genOpts{maxDocs: 5, maxTypes: 14, split: true, soap: true})
	}
	t.Case(set.ident())
	decl := declaredIn(set.Bytes()...)
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	t.Descf("input %s", set.Kind)
	for _, d := range set.Docs {
		t.Descf("  %s: %s", d.Name, clip(d.Data))
	}
	var ref modelOutcome
	t.Sim(func() { ref = parseCanon(decl, set.Bytes()) })
	t.Descf("  reference: %s types", ref)
	if ref.Failed() {
		t.Count("inputs that fail", 1)
	} else {
		t.Count("inputs that succeed", 1)
	}
	for i := 0; i < 5; i++ {
		// the delivery: order, duplicates, losses
		order := simrt.S("order").Perm(len(set.Docs))
		var seq []int
		lost, dup := 0, 0
		lossy := choose("lossy", 2) == 1
		for _, k := range order {
			switch {
			case lossy && len(set.Docs) > 1 && chance("lose", 1, 4):
				lost++
			default:
				seq = append(seq, k)
				for chance("dup", 1, 8) {
					at := choose("dupat", len(seq)+1)
					seq = append(seq, 0)
					copy(seq[at+1:], seq[at:])
					seq[at] = k
					dup++
				}
			}
		}
		if len(seq) == 0 {
			continue
		}
		have := map[int]bool{}
		for _, k := range seq {
			have[k] = true
		}
		lost = len(set.Docs) - len(have)
		var docs [][]byte
		for _, k := range seq {
			docs = append(docs, append([]byte(nil), set.Docs[k].Data...))
		}
		t.Faults["documents lost"] += int64(lost)
		t.Faults["documents duplicated"] += int64(dup)
		for j := 1; j < len(seq); j++ {
			if seq[j] < seq[j-1] {
				t.Fault("documents out of order")
			}
		}
		var got modelOutcome
		here := declaredIn(docs...)
		t.Sim(func() {
			simrt.MapOrder(choose("perm", 2) == 1)
			got = parseCanon(here, docs)
		})
		simrt.MapOrder(false)
		simrt.Note(hash(fmt.Sprint(seq, got.Val)))
		t.Descf("  delivered %v: %s types", seq, got)
		if lost == 0 && got.Failed() != ref.Failed() {
			t.Fail("outcome depends on delivery", "documents delivered as %v: %s; in order: %s", seq, got, ref)
			return
		}
		if got.Failed() {
			if lost > 0 {
				t.Count("losses reported as errors", 1)
				if got.Panic != nil {
					t.Fail("panic", "documents delivered as %v: %v\n%s", seq, got.Panic, got.Stack)
					return
				}
			}
			continue
		}
		if ref.Failed() {
			continue
		}
		if lost+dup > 0 || len(seq) > 1 {
			t.Nontrivial = true
		}
		if lost > 0 {
			t.Count("losses parsed", 1)
		}
		if d := absent(ref.types, got.types, here); d != "" {
			t.Fail("declarations dropped", "documents delivered as %v (%d lost, %d duplicated) are parsed without an error, but what they declare is missing: %s", seq, lost, dup, clip([]byte(d)))
			return
		}
		if d := diffTypes(ref.types, got.types, lost > 0); d != "" {
			class := "model depends on order"
			if lost > 0 {
				class = "wrong model when documents are lost"
			} else if dup > 0 {
				class = "model depends on order or duplicates"
			}
			t.Fail(class, "documents delivered as %v (%d lost, %d duplicated): %s", seq, lost, dup, d)
			return
		}
	}
}
