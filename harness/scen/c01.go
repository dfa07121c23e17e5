package scen

import (
	"os"
	"time"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// C01: the generated source is a function of documents and options.  The
// reference run uses canonical map order, the plain surroundings and a fresh
// configuration; each further run permutes every map iteration, changes clock
// and environment, log level and what was generated before.
func init() { register("C01", 60e6, c01) }

func c01(t *T) {
	set := t.anySet(genOpts{maxDocs: 3, maxTypes: 14, split: true, soap: true})
	o := drawOpts("opts", set)
	t.Case(set.ident(), o)
	files := t.writeSet("in", set)
	t.Descf("input %s, %d documents, options %s", set.Kind, len(set.Docs), o)
	for _, d := range set.Docs {
		t.Descf("  %s: %s", d.Name, clip(d.Data))
	}
	var ref Outcome
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	t.Sim(func() { ref = generate(set, files, o, 0) })
	t.Descf("  reference: %s", ref)
	if ref.Failed() {
		t.Count("inputs that fail", 1)
	} else {
		t.Count("inputs that succeed", 1)
	}
	for i := 0; i < 4; i++ {
		level := choose("level", 7)
		prof := choose("profile", 4)
		earlier := chance("earlier", 1, 3)
		if chance("restart", 1, 2) {
			t.restart()
		}
		perm := choose("perm", 8) != 7
		before := simrt.MapsPermuted()
		if prof > 0 {
			drawEnv("env")
			for _, f := range files { // written at another time
				at := time.Unix(int64(choose("mtime", 1<<30)), 0)
				os.Chtimes(f, at, at)
			}
		} else {
			plainEnv()
		}
		var got Outcome
		t.Sim(func() {
			simrt.SetProfile(prof)
			simrt.MapOrder(perm)
			if earlier {
				// other work in the same process, with its own
				// configuration, on other documents or the same
				other, dir := set, "in"
				if chance("other", 1, 2) {
					other, dir = t.anySet(genOpts{maxDocs: 2, maxTypes: 6, soap: true}), "other"
				}
				oo := drawOpts("opts2", other)
				if chance("near", 1, 3) {
					// options that differ a little
					oo = o.vary("vary", set)
				}
				generate(other, t.writeSet(dir, other), oo, choose("level", 7))
				t.Fault("earlier work")
			}
			got = generate(set, files, o, level)
		})
		simrt.MapOrder(false)
		if n := simrt.MapsPermuted() - before; n > 0 {
			t.Faults["permuted map iterations"] += n
			t.Nontrivial = t.Nontrivial || !ref.Failed()
		}
		if prof > 0 {
			t.Fault("changed clock and environment")
		}
		if level > 0 {
			t.Fault("changed log level")
		}
		simrt.Note(hash(got.Val))
		t.Descf("  permuted %v, profile %d, log level %d, earlier work %v: %s", perm, prof, level, earlier, got)
		if !got.Same(ref) {
			t.Fail("output differs", "input %s (%d documents): permuted %v, profile %d, log level %d, earlier work %v: %s", set.Kind, len(set.Docs), perm, prof, level, earlier, outcomeDiff(ref, got))
			return
		}
	}
}
