package scen

import (
	"fmt"
	"path/filepath"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/xsd"
)

// C23: the schema printing command over a simulated file system and a
// standard output that fails.
func init() { register("C23", 60e6, c23) }

func c23(t *T) {
	s := simrt.S("c23")
	simrt.SetProfile(0)
	var c *fsCase
	for try := 0; try < 4 && c == nil; try++ {
		c = t.drawPrint(s, fmt.Sprintf("case.%d", try))
	}
	if c == nil {
		t.Case("none")
		return
	}
	c.describe(t)
	t.Nontrivial = true
	run := func(budget int, perturb bool, what string, ft ...fsFault) bool {
		f := t.newFsim(c.inputs, ft...)
		f.budget = budget
		cmd := c.cmd
		cmd.mapOrder = perturb
		return t.judgePrint(c, t.runCmd(f, cmd), f, what)
	}
	// the same again
	for i := 0; i < 2; i++ {
		t.reset(c.inputs)
		if !run(-1, true, "map iteration in another order") {
			return
		}
	}
	rounds := 2
	if t.Tier == "thorough" {
		rounds = 6
	}
	for r := 0; r < rounds; r++ {
		for k := range c.ops {
			faults := []fsFault{{at: k, kind: s.Choose(1 << 10), cut: s.Choose(1 << 16), stays: s.Chance(1, 3)}}
			if s.Chance(1, 8) {
				faults = append(faults, fsFault{at: k + 1 + s.Choose(4), kind: s.Choose(1 << 10), cut: s.Choose(1 << 16)})
			}
			t.reset(c.inputs)
			if !run(-1, s.Chance(1, 2), "", faults...) {
				return
			}
		}
	}
	// a standard output that fills up
	for i := 0; i < 4; i++ {
		n := s.Choose(len(c.want))
		switch i {
		case 0:
			n = 0
		case 1:
			n = len(c.want) - 1
		}
		t.reset(c.inputs)
		if !run(n, false, "") {
			return
		}
	}
	// inputs that are not there, or not whole
	for _, d := range sortedPaths(c.inputs) {
		for kind := 0; kind < 3; kind++ {
			t.reset(c.inputs)
			p := filepath.Join(t.Scratch, d)
			var what string
			f := t.newFsim(c.inputs)
			switch kind {
			case 0:
				what = "missing"
				remove(p)
			case 1:
				what = "a directory"
				remove(p)
				t.Write(filepath.Join(d, "x"), nil)
			case 2:
				e := docElement(c.inputs[d])
				if e[1]-e[0] < 2 {
					continue
				}
				n := e[0] + 1 + s.Choose(e[1]-e[0]-1)
				what = fmt.Sprintf("cut off after %d of %d bytes", n, len(c.inputs[d]))
				t.Write(d, c.inputs[d][:n])
			}
			what = d + " is " + what
			t.Fault("input " + []string{"missing", "a directory", "cut off on disk"}[kind])
			f.must = append(f.must, what)
			if !t.judgePrint(c, t.runCmd(f, c.cmd), f, what) {
				return
			}
		}
	}
	t.reset(c.inputs)
	f := t.newFsim(c.inputs)
	res := t.runCmd(f, c.cmd)
	if res.failed {
		t.Fail("failures stick", "%s fails without faults after failed runs: %s", c.cmd, res)
		return
	}
	t.judgePrint(c, res, f, "earlier failures")
}

// drawPrint draws a command line that succeeds when nothing fails.
func (t *T) drawPrint(s *simrt.Stream, tag string) *fsCase {
	var set DocSet
	dir := []string{"", "in"}[s.Choose(2)]
	switch s.Choose(5) {
	case 0:
		set = t.corpusSet(tag+".corpus", 20000, func(n string) bool { return strings.HasSuffix(n, ".xsd") })
	default:
		set = genXSD(tag+".xsd", genOpts{maxDocs: 4, maxTypes: 3})
	}
	if set.WSDL {
		return nil
	}
	c := &fsCase{inputs: map[string][]byte{}}
	c.cmd.entry = "xsdparse"
	for _, d := range set.Docs {
		p := filepath.Join(dir, d.Name)
		c.inputs[p] = d.Data
		c.cmd.files = append(c.cmd.files, p)
	}
	if s.Chance(1, 3) {
		ns := append(namespacesOf(set.Bytes()), "urn:none", "http://www.w3.org/2001/XMLSchema", "http://schemas.xmlsoap.org/soap/encoding/")
		c.cmd.flags = append(c.cmd.flags, []string{"-ns", "--ns"}[s.Choose(2)], ns[s.Choose(len(ns))])
	}
	t.reset(c.inputs)
	f := t.newFsim(c.inputs)
	res := t.runCmd(f, c.cmd)
	if len(t.Fails) > 0 {
		t.Fails = t.Fails[:0]
		t.Count("commands that panic without faults", 1)
		return nil
	}
	if res.failed || res.crashed {
		return nil
	}
	c.want, _ = t.content(stdoutName)
	c.ops = f.ops
	standard := strings.Join(namespacesOf(xsd.StandardSchema), " ") + " "
	for _, ns := range namespacesOf(set.Bytes()) {
		if strings.Contains(standard, ns+" ") {
			continue // the parser brings these
		}
		if !strings.ContainsAny(ns, "&<>'\"") && !strings.Contains(c.want, ns) {
			t.Fail("incomplete output", "%s succeeded without printing a schema of namespace %q", c.cmd, ns)
			return c
		}
	}
	if c.want == "" {
		return nil
	}
	return c
}

func (t *T) judgePrint(c *fsCase, res cmdResult, f *fsim, what string) bool {
	state := strings.Join(append(append([]string{}, f.log...), what), "; ")
	got, _ := t.content(stdoutName)
	switch {
	case len(t.Fails) > 0:
		t.Fails[0].Msg += "\n after: " + state
		return false
	case res.crashed:
		t.Fail("command ends", "%s ended without a result after %s", c.cmd, state)
	case !res.failed && len(f.must) > 0:
		t.Fail("failure lost", "%s succeeded although %s; %d of %d bytes were printed", c.cmd, state, len(got), len(c.want))
	case !res.failed && got != c.want:
		t.Fail("wrong output", "%s succeeded after %s, but printed something else: %s", c.cmd, state, diff(c.want, got))
	case res.failed && len(f.must)+len(f.soft) == 0:
		t.Fail("spurious failure", "%s fails (%s) after %s", c.cmd, res.what, state)
	}
	return len(t.Fails) == 0
}
