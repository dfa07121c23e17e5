package scen

import (
	"fmt"
	"path/filepath"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// C08, C09: the generation commands run over a simulated file system.  A
// faultless run lists their system calls; then the command is run again with
// a fault at each of them.
func init() {
	register("C08", 60e6, c08)
	register("C09", 60e6, c09)
}

// fsCase is a command and what is on disk before it runs.
type fsCase struct {
	cmd    cmdSpec
	inputs map[string][]byte
	old    []byte // previous output, nil if none
	hasOld bool
	want   string // what a faultless run writes
	ops    []fsOp
	cfg    optSpec
}

// drawFsCase draws a command that succeeds when nothing fails.
func (t *T) drawFsCase(s *simrt.Stream, tag string) *fsCase {
	for try := 0; try < 4; try++ {
		tag := fmt.Sprintf("%s.%d", tag, try)
		var set DocSet
		follow := false
		dir := []string{"", "in"}[s.Choose(2)]
		switch s.Choose(8) {
		case 0:
			set = t.corpusSet(tag+".corpus", 20000, nil)
		case 1, 2:
			set = genWSDL(tag+".wsdl", genOpts{maxDocs: 2, maxTypes: 2})
		case 3, 4, 5:
			follow = true
			set = genXSD(tag+".xsd", genOpts{maxDocs: 4, maxTypes: 2, split: true, location: func(i int) string {
				return filepath.Join(dir, fmt.Sprintf("d%d.xsd", i))
			}})
		default:
			set = genXSD(tag+".xsd", genOpts{maxDocs: 3, maxTypes: 3})
		}
		c := &fsCase{inputs: map[string][]byte{}}
		var files []string
		for _, d := range set.Docs {
			p := filepath.Join(dir, d.Name)
			c.inputs[p] = d.Data
			files = append(files, p)
		}
		if follow {
			// name one file; the others are found from it
			k := s.Choose(len(files))
			reach := reachable(set, k)
			files = files[k : k+1]
			for i, d := range set.Docs {
				if !reach[i] {
					delete(c.inputs, filepath.Join(dir, d.Name))
				}
			}
		}
		if !follow && s.Chance(1, 3) {
			// a file that the others do not need
			p := filepath.Join(dir, "extra.xsd")
			c.inputs[p] = []byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:extra">` +
				`<simpleType name="extra"><restriction base="string"><maxLength value="3"/></restriction></simpleType></schema>` + "\n")
			k := len(files)
			if !set.WSDL && s.Chance(1, 2) {
				k = s.Choose(len(files) + 1)
			}
			files = append(files[:k:k], append([]string{p}, files[k:]...)...)
		}
		c.cmd = drawCmd(s, set, files, drawOpts(tag+".opts", set))
		if follow {
			c.cmd.flags = append(c.cmd.flags, "-f")
		}
		t.reset(c.inputs)
		if d := filepath.Dir(c.cmd.output()); d != "." {
			t.reset(c.with(map[string][]byte{filepath.Join(d, "keep"): nil}))
		}
		f := t.newFsim(c.inputs)
		res := t.runCmd(f, c.cmd)
		if len(t.Fails) > 0 {
			// the generator cannot handle this input, whatever the surroundings
			t.Fails = t.Fails[:0]
			t.Count("commands that panic without faults", 1)
			continue
		}
		if res.failed {
			continue
		}
		want, ok := t.content(c.cmd.output())
		if !ok || want == "" {
			t.Fail("no output", "%s reported success and left no output", c.cmd)
			return nil
		}
		c.want, c.ops = want, f.ops
		return c
	}
	return nil
}

// with returns the input files and some more.
func (c *fsCase) with(more map[string][]byte) map[string][]byte {
	m := map[string][]byte{}
	for k, v := range c.inputs {
		m[k] = v
	}
	for k, v := range more {
		m[k] = v
	}
	return m
}

// setup puts the inputs and the old output on disk.
func (t *T) setup(c *fsCase) {
	m := c.with(nil)
	if d := filepath.Dir(c.cmd.output()); d != "." {
		m[filepath.Join(d, "keep")] = nil
	}
	if c.hasOld {
		m[c.cmd.output()] = c.old
	}
	t.reset(m)
}

// drawOld draws what is in the output file before the command.
func (c *fsCase) drawOld(s *simrt.Stream) {
	c.hasOld = true
	switch s.Choose(7) {
	case 0:
		c.hasOld, c.old = false, nil
	case 1:
		c.old = []byte("package ws\n\n// previous output\ntype Old struct{}\n")
	case 2:
		c.old = []byte(c.want + "\n// more that was there before\n" + strings.Repeat("type X int\n", 40))
	case 3:
		c.old = []byte(c.want)
	case 4:
		c.old = []byte(c.want[:len(c.want)/2])
	case 5:
		c.old = []byte{}
	default:
		c.old = []byte(strings.Repeat("\x00garbage", 3000))
	}
}

func (c *fsCase) describe(t *T) {
	t.Descf("command %s (options %s)", c.cmd, c.cmd.opts)
	for p, d := range c.inputs {
		t.Descf("%s: %s", p, clip(d))
	}
	t.Descf("old output: %v, %d bytes; faultless output %d bytes; operations %s", c.hasOld, len(c.old), len(c.want), fmt.Sprint(c.ops))
	t.Case(c.cmd.String(), c.want, string(c.old), fmt.Sprint(c.ops))
}

func reachable(set DocSet, k int) map[int]bool {
	seen := map[int]bool{k: true}
	todo := []int{k}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		for _, j := range set.Docs[i].Refs {
			if !seen[j] {
				seen[j] = true
				todo = append(todo, j)
			}
		}
	}
	return seen
}

// judgeRead judges a command that met faults while reading.
func (t *T) judgeRead(c *fsCase, res cmdResult, must, what []string) bool {
	state := strings.Join(what, "; ")
	switch {
	case len(t.Fails) > 0:
		t.Fails[0].Msg += "\n after: " + state
		return false
	case res.crashed:
		t.Fail("command ends", "%s ended without a result after %s", c.cmd, state)
		return false
	case !res.failed && len(must) > 0:
		got, _ := t.content(c.cmd.output())
		t.Fail("read failure lost", "%s succeeded although %s; the output is the faultless one: %v", c.cmd, state, got == c.want)
		return false
	case c.cmd.entry == "GenSource":
		if !res.failed && res.src != c.want {
			t.Fail("wrong output", "%s succeeded with another source after %s: %s", c.cmd, state, diff(c.want, res.src))
			return false
		}
		return true
	case res.failed:
		got, ok := t.content(c.cmd.output())
		if ok != c.hasOld || got != string(c.old) {
			t.Fail("old output lost", "%s failed (%s) after %s; before there was an output file: %v, of %d bytes; now: %v, of %d bytes",
				c.cmd, res.what, state, c.hasOld, len(c.old), ok, len(got))
			return false
		}
	default:
		got, _ := t.content(c.cmd.output())
		if got != c.want {
			t.Fail("wrong output", "%s succeeded after %s, but its output differs from that of a faultless run: %s", c.cmd, state, diff(c.want, got))
			return false
		}
	}
	return true
}

func c08(t *T) {
	s := simrt.S("c08")
	simrt.SetProfile(0)
	c := t.drawFsCase(s, "case")
	if c == nil {
		t.Case("none")
		return
	}
	c.drawOld(s)
	c.describe(t)
	if s.Choose(8) == 7 && !c.cmd.has("-f") {
		// the same without a command: the error is returned
		c.cmd = cmdSpec{entry: "GenSource", wsdl: c.cmd.wsdl, files: c.cmd.files, opts: c.cmd.opts}
		t.setup(c)
		f := t.newFsim(c.inputs)
		res := t.runCmd(f, c.cmd)
		if res.failed {
			return
		}
		c.want, c.ops = res.src, f.ops
		c.hasOld = false
	}
	t.Nontrivial = true
	rounds := 1
	if t.Tier == "thorough" {
		rounds = 3
	}
	for r := 0; r < rounds; r++ {
		for k, o := range c.ops {
			if o.class == clOutput {
				continue
			}
			ft := fsFault{at: k, kind: s.Choose(1 << 10), cut: s.Choose(1 << 16), stays: s.Chance(1, 3)}
			faults := []fsFault{ft}
			if s.Chance(1, 8) {
				faults = append(faults, fsFault{at: k + 1 + s.Choose(4), kind: s.Choose(1 << 10), cut: s.Choose(1 << 16)})
			}
			t.setup(c)
			f := t.newFsim(c.inputs, faults...)
			res := t.runCmd(f, c.cmd)
			if f.hitOutput() {
				continue
			}
			if !t.judgeRead(c, res, f.must, f.log) {
				return
			}
		}
	}
	// faults that are on the disk
	for _, d := range sortedPaths(c.inputs) {
		for kind := 0; kind < 4; kind++ {
			if s.Choose(2) == 0 {
				continue
			}
			t.setup(c)
			p := filepath.Join(t.Scratch, d)
			data := c.inputs[d]
			var what string
			f := t.newFsim(c.inputs)
			switch kind {
			case 0:
				what = "missing"
				remove(p)
			case 1:
				what = "a directory"
				remove(p)
				t.Write(filepath.Join(d, "x"), nil)
			case 2:
				what = "a dangling symbolic link"
				remove(p)
				symlink("nowhere", p)
			case 3:
				e := docElement(data)
				if e[1]-e[0] < 2 {
					continue
				}
				n := e[0] + 1 + s.Choose(e[1]-e[0]-1)
				what = fmt.Sprintf("cut off after %d of %d bytes", n, len(data))
				t.Write(d, data[:n])
			}
			what = d + " is " + what
			t.Fault("input " + []string{"missing", "a directory", "a dangling link", "cut off on disk"}[kind])
			res := t.runCmd(f, c.cmd)
			if !t.judgeRead(c, res, []string{what}, []string{what}) {
				return
			}
		}
	}
	// An input that comes in pieces, as from a pipe or over a network, is
	// read whole.
	if s.Chance(1, 2) {
		t.setup(c)
		f := t.newFsim(c.inputs)
		f.chunk = 1 + s.Choose([]int{16, 200, 1000, 5000}[s.Choose(4)])
		for _, d := range c.inputs {
			if f.chunk < len(d)/2000 {
				f.chunk = len(d) / 2000
			}
		}
		what := fmt.Sprintf("every read gives at most %d bytes", f.chunk)
		res := t.runCmd(f, c.cmd)
		if res.failed {
			t.Fail("short reads", "%s fails when %s: %s", c.cmd, what, res)
			return
		}
		if !t.judgeRead(c, res, nil, []string{what}) {
			return
		}
	}
	// and once more without faults: nothing sticks
	t.setup(c)
	f := t.newFsim(c.inputs)
	res := t.runCmd(f, c.cmd)
	if res.failed {
		t.Fail("failures stick", "%s fails without faults after failed runs: %s", c.cmd, res)
		return
	}
	t.judgeRead(c, res, nil, []string{"earlier failures"})
}

// hitOutput reports whether a fault met the output.
func (f *fsim) hitOutput() bool {
	for _, ft := range f.faults {
		if ft.at < len(f.ops) && f.ops[ft.at].class == clOutput {
			return true
		}
	}
	return false
}

func c09(t *T) {
	s := simrt.S("c09")
	simrt.SetProfile(0)
	c := t.drawFsCase(s, "case")
	if c == nil {
		t.Case("none")
		return
	}
	c.drawOld(s)
	c.describe(t)
	t.Nontrivial = true
	// the command writes what the library generates
	if c.cmd.entry == "xsdgen.Config" || c.cmd.entry == "wsdlgen.Config" {
		if !c.cmd.has("-f") && !c.cmd.has("-pkg") {
			t.setup(c)
			res := t.runCmd(t.newFsim(c.inputs), cmdSpec{entry: "GenSource", wsdl: c.cmd.wsdl, files: c.cmd.files, opts: c.cmd.opts})
			if len(t.Fails) > 0 {
				return
			}
			if res.failed || res.src != c.want {
				t.Fail("wrong output", "%s writes something other than GenSource (%s) returns: %s", c.cmd, res, diff(res.src, c.want))
				return
			}
		}
	}
	var outOps, ops []int
	for k, o := range c.ops {
		if o.class == clOutput || o.op == "Renameat" || o.op == "Mkdirat" {
			outOps = append(outOps, k)
		} else {
			ops = append(ops, k)
		}
	}
	var plans [][]fsFault
	rounds := 3
	if t.Tier == "thorough" {
		rounds = 9
	}
	for r := 0; r < rounds; r++ {
		for _, k := range outOps {
			plans = append(plans, []fsFault{{at: k, kind: s.Choose(1 << 10), cut: s.Choose(1 << 16), stays: s.Chance(1, 3)}})
		}
	}
	for _, k := range outOps {
		for crash := 1; crash <= 3; crash++ {
			if crash == 3 && c.ops[k].op != "write" {
				continue
			}
			plans = append(plans, []fsFault{{at: k, crash: crash, cut: s.Choose(1 << 16)}})
		}
		// a transient fault first
		plans = append(plans, []fsFault{{at: k, kind: s.Choose(1 << 10), cut: s.Choose(1 << 16)}, {at: k + 1, kind: s.Choose(1 << 10), cut: s.Choose(1 << 16)}})
	}
	for i := 0; i < 3 && len(ops) > 0; i++ {
		plans = append(plans, []fsFault{{at: ops[s.Choose(len(ops))], kind: s.Choose(1 << 10), cut: s.Choose(1 << 16), crash: s.Choose(3)}})
	}
	run := func(c *fsCase, ft []fsFault, budget int) (cmdResult, *fsim, bool) {
		f := t.newFsim(c.inputs, ft...)
		f.budget = budget
		res := t.runCmd(f, c.cmd)
		state := strings.Join(f.log, "; ")
		if state == "" {
			state = "no fault"
		}
		if len(t.Fails) > 0 {
			t.Fails[0].Msg += "\n after: " + state
			return res, f, false
		}
		if !res.failed && !res.crashed {
			if len(f.must) > 0 {
				got, _ := t.content(c.cmd.output())
				t.Fail("write failure lost", "%s succeeded although %s; the output is complete: %v", c.cmd, state, got == c.want)
				return res, f, false
			}
			if got, _ := t.content(c.cmd.output()); got != c.want {
				t.Fail("incomplete output", "%s succeeded after %s with an output of %d bytes, should be %d (%d bytes were there before): %s", c.cmd, state, len(got), len(c.want), len(c.old), diff(c.want, got))
				return res, f, false
			}
		}
		return res, f, true
	}
	again := func(c *fsCase, after string) bool {
		res, _, ok := run(c, nil, -1)
		if !ok {
			t.Fails[0].Msg += "\n this was a rerun after " + after
			return false
		}
		if res.failed || res.crashed {
			t.Fail("rerun fails", "%s %s when run again without faults after %s", c.cmd, res, after)
			return false
		}
		return true
	}
	t.setup(c)
	if !again(c, "nothing, over the old output") {
		return
	}
	for _, ft := range plans {
		t.setup(c)
		res, f, ok := run(c, ft, -1)
		if !ok {
			return
		}
		after := strings.Join(f.log, "; ")
		if (res.crashed || res.failed) && s.Chance(1, 3) {
			// the power fails too: what was not yet on the disk is lost
			p := c.cmd.output()
			if got, ok := t.content(p); ok {
				n := s.Choose(len(got) + 1)
				lost := got[:n]
				if s.Choose(2) == 1 {
					lost += strings.Repeat("\x00", len(got)-n)
				}
				t.Write(p, []byte(lost))
				t.Fault("output lost in part")
				after += "; then the output was lost from byte " + fmt.Sprint(n)
			}
		}
		if res.crashed || res.failed || s.Chance(1, 4) {
			if s.Chance(1, 5) && len(outOps) > 0 {
				_, f2, ok := run(c, []fsFault{{at: outOps[s.Choose(len(outOps))], kind: s.Choose(1 << 10), cut: s.Choose(1 << 16), crash: s.Choose(4)}}, -1)
				if !ok {
					return
				}
				after += "; and then " + strings.Join(f2.log, "; ")
			}
			if !again(c, after) {
				return
			}
		}
	}
	// a disk that fills up
	for i := 0; i < 3; i++ {
		t.setup(c)
		_, f, ok := run(c, nil, []int{0, s.Choose(len(c.want)), len(c.want) - 1}[i])
		if !ok {
			return
		}
		if len(f.must) == 0 {
			t.Count("disk-full runs that wrote less than the budget", 1)
		}
		if !again(c, "a full disk") {
			return
		}
	}
	// a shorter or longer output of another command before
	if d := t.drawFsCase(s, "other"); d != nil && d.cmd.wsdl == c.cmd.wsdl {
		d.cmd.out = c.cmd.out
		e := *c
		e.hasOld, e.old = true, []byte(d.want)
		t.setup(&e)
		if !again(&e, "output of another command") {
			return
		}
	}
	if len(t.Fails) > 0 {
		return
	}
	// the output cannot be created
	t.setup(c)
	p := filepath.Join(t.Scratch, c.cmd.output())
	remove(p)
	t.Write(filepath.Join(c.cmd.output(), "x"), nil)
	t.Fault("output is a directory")
	if _, _, ok := run(c, nil, -1); !ok {
		return
	}
}
