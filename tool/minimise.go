package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// replayT is a replay file: the traces of the runs that one fresh process
// executes one after another; the last one shows the violation.
type replayT struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Kind     string   `json:"worker"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Run      int      `json:"run"`
	Unstable bool     `json:"not_reproduced,omitempty"`
	Describe []string `json:"describe,omitempty"`
	Runs     []traceT `json:"runs"`
}

type minimiser struct {
	prop, class, bin, work, tier string
	deadline                     time.Time
	evals                        int
	mu                           sync.Mutex
	msg                          string
	desc                         []string
}

// fails reports whether the runs, in one fresh process, end in the class.
func (m *minimiser) fails(runs []traceT) (bool, string, string) {
	o := runWorker(m.bin, job{Prop: m.prop, Tier: m.tier, Replay: runs, Samples: true}, m.work, 60*time.Second)
	m.mu.Lock()
	m.evals++
	m.mu.Unlock()
	last := len(runs) - 1
	if o.crash != nil && o.lastRun == last && o.crash.Class == m.class {
		return true, o.crash.Msg, ""
	}
	for _, e := range o.events {
		if e.T == "end" && e.Run == last {
			for _, f := range e.Fails {
				if f.Class == m.class {
					return true, f.Msg, e.Sample
				}
			}
		}
	}
	return false, "", ""
}

// first returns the lowest candidate that still fails, or -1.
func (m *minimiser) first(cands [][]traceT) int {
	w := workers()
	for i := 0; i < len(cands); i += w {
		if time.Now().After(m.deadline) {
			return -1
		}
		n := len(cands) - i
		if n > w {
			n = w
		}
		res := make([]bool, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				ok, _, _ := m.fails(cands[i+k])
				res[k] = ok
			}(k)
		}
		wg.Wait()
		for k := range res {
			if res[k] {
				return i + k
			}
		}
	}
	return -1
}

type recRef struct {
	stream string
	idx    int
}

func refs(t traceT) []recRef {
	var names []string
	for n := range t {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []recRef
	for _, n := range names {
		for i := range t[n] {
			out = append(out, recRef{n, i})
		}
	}
	return out
}

func without(t traceT, drop map[recRef]bool) traceT {
	out := traceT{}
	for n, rs := range t {
		for i, r := range rs {
			if !drop[recRef{n, i}] {
				out[n] = append(out[n], r)
			}
		}
	}
	return out
}

func (m *minimiser) minimise(runs []traceT) []traceT {
	// earlier runs of the process
	for n := len(runs) - 1; n > 0; {
		last := runs[len(runs)-1]
		var cands [][]traceT
		for chunk := n; chunk >= 1; chunk /= 2 {
			for lo := 0; lo < n; lo += chunk {
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				c := append(append([]traceT{}, runs[:lo]...), runs[hi:n]...)
				cands = append(cands, append(c, last))
			}
		}
		i := m.first(cands)
		if i < 0 {
			break
		}
		runs = cands[i]
		n = len(runs) - 1
	}
	for i := len(runs) - 1; i >= 0; i-- {
		runs = m.minimiseRun(runs, i)
	}
	return runs
}

func replaced1(runs []traceT, at int, t traceT) []traceT {
	out := append([]traceT{}, runs...)
	out[at] = t
	return out
}

func (m *minimiser) minimiseRun(runs []traceT, at int) []traceT {
	// whole streams first
	for again := true; again; {
		again = false
		var cands [][]traceT
		var names []string
		for n := range runs[at] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t := traceT{}
			for k, v := range runs[at] {
				if k != n {
					t[k] = v
				}
			}
			cands = append(cands, replaced1(runs, at, t))
		}
		if i := m.first(cands); i >= 0 {
			runs = cands[i]
			again = true
		}
	}
	// ddmin over the records
	chunks := 2
	for {
		rs := refs(runs[at])
		if len(rs) == 0 || time.Now().After(m.deadline) {
			break
		}
		if chunks > len(rs) {
			chunks = len(rs)
		}
		var cands [][]traceT
		for c := 0; c < chunks; c++ {
			drop := map[recRef]bool{}
			for i := c * len(rs) / chunks; i < (c+1)*len(rs)/chunks; i++ {
				drop[rs[i]] = true
			}
			cands = append(cands, replaced1(runs, at, without(runs[at], drop)))
		}
		if i := m.first(cands); i >= 0 {
			runs = cands[i]
			if chunks > 2 {
				chunks--
			}
			continue
		}
		if chunks >= len(rs) {
			break
		}
		chunks *= 2
	}
	// smaller values
	for again := true; again && !time.Now().After(m.deadline); {
		again = false
		rs := refs(runs[at])
		if len(rs) > 200 {
			break
		}
		var cands [][]traceT
		for _, r := range rs {
			v := runs[at][r.stream][r.idx][1]
			for _, nv := range []uint32{1, v / 2, v - 1} {
				if nv > 0 && nv < v {
					t := traceT{}
					for k, x := range runs[at] {
						t[k] = append([][2]uint32{}, x...)
					}
					t[r.stream][r.idx][1] = nv
					cands = append(cands, replaced1(runs, at, t))
				}
			}
		}
		if i := m.first(cands); i >= 0 {
			runs = cands[i]
			again = true
		}
	}
	return runs
}

// report minimises the first failure of a batch, writes the replay file and
// returns the VIOLATION line.
func report(prop, tier string, seed uint64, p plan, r batchResult, known map[string]finding, verif, work string) string {
	run, f, tr, _ := firstUnlisted(r.out, known)
	fmt.Printf("run %d (batch %d) fails: %s: %s\n", run, r.n, f.Class, f.Msg)
	m := &minimiser{prop: prop, class: f.Class, bin: r.bin, work: work, tier: tier, deadline: time.Now().Add(75 * time.Second)}
	kind := strings.TrimPrefix(filepath.Base(r.bin), "worker-")
	rep := replayT{Property: prop, Class: f.Class, Message: f.Msg, Kind: kind, Seed: seed, Tier: tier, Run: run}

	dump := func(from, to int) []traceT {
		dir := filepath.Join(work, fmt.Sprintf("dump%d", from))
		os.MkdirAll(dir, 0777)
		defer os.RemoveAll(dir)
		runWorker(r.bin, job{Prop: prop, Tier: tier, Seed: seed, From: from, To: to, DumpDir: dir}, work, runTimeout)
		var out []traceT
		for i := from; i < to; i++ {
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprint(i)))
			if err != nil {
				break
			}
			out = append(out, decodeDump(b))
		}
		return out
	}
	var runs []traceT
	found := false
	try := func(rs []traceT) bool {
		if len(rs) == 0 {
			return false
		}
		for k := 0; k < 3 && !found; k++ {
			if ok, _, _ := m.fails(rs); ok {
				runs, found = rs, true
			}
		}
		return found
	}
	if tr != nil {
		try([]traceT{tr})
	}
	if !found {
		try(dump(run, run+1))
	}
	if !found {
		// the failure may need what earlier runs of the process left behind
		try(dump(r.n*p.batch, run+1))
	}
	if found {
		before := 0
		for _, t := range runs {
			before += t.size()
		}
		runs = m.minimise(runs)
		after := 0
		for _, t := range runs {
			after += t.size()
		}
		ok := false
		for k := 0; k < 5 && !ok; k++ {
			var msg, s string
			if ok, msg, s = m.fails(runs); ok {
				rep.Message = msg
				if s != "" {
					rep.Describe = strings.Split(s, "\n")
				}
			}
		}
		rep.Unstable = !ok
		fmt.Printf("minimised from %d to %d choices in %d executions; replayed in a fresh process: %v\n", before, after, m.evals, ok)
	} else {
		runs = []traceT{tr}
		rep.Unstable = true
		fmt.Println("the failure did not show again on replay")
	}
	rep.Runs = runs
	os.MkdirAll(filepath.Join(verif, "replays"), 0777)
	name := filepath.Join("replays", fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, run))
	data, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(filepath.Join(verif, name), data, 0666); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("violation: %s: %s\n", rep.Class, rep.Message)
	for _, l := range rep.Describe {
		fmt.Println("  " + l)
	}
	return fmt.Sprintf("VIOLATION property=%s replay=%s", prop, name)
}

func replayFile(name string) int {
	data, err := os.ReadFile(name)
	if err != nil {
		fatal("%v", err)
	}
	var rep replayT
	if err := json.Unmarshal(data, &rep); err != nil {
		fatal("%v", err)
	}
	verif := verifDir()
	work := workDir(verif, "replay")
	bins, _ := buildBins(verif, work, []string{rep.Kind})
	m := &minimiser{prop: rep.Property, class: rep.Class, bin: bins[rep.Kind], work: work, tier: rep.Tier, deadline: time.Now().Add(time.Hour)}
	ok, msg, s := m.fails(rep.Runs)
	if !ok {
		fmt.Printf("not reproduced: %s: %s\n", rep.Property, rep.Class)
		return 0
	}
	fmt.Printf("reproduced: %s: %s\n", rep.Class, msg)
	if s != "" {
		fmt.Println(s)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, name)
	return 1
}

// decodeDump decodes the write-through trace dump of package simrt.
func decodeDump(b []byte) traceT {
	le := func(b []byte) uint32 {
		return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	var names []string
	out := traceT{}
	for len(b) > 0 {
		switch {
		case b[0] == 'N' && len(b) >= 2 && len(b) >= 2+int(b[1]):
			names = append(names, string(b[2:2+int(b[1])]))
			b = b[2+int(b[1]):]
			continue
		case b[0] == 'C' && len(b) >= 13:
			id, i, v := le(b[1:]), le(b[5:]), le(b[9:])
			name := ""
			switch {
			case id == 1<<30:
				name = "sched"
			case id >= 1<<29:
				name = fmt.Sprintf("map%d", id-1<<29)
			case int(id) < len(names):
				name = names[id]
			}
			if name != "" {
				out[name] = append(out[name], [2]uint32{i, v})
			}
			b = b[13:]
			continue
		}
		break
	}
	for _, rs := range out {
		sort.Slice(rs, func(i, j int) bool { return rs[i][0] < rs[j][0] })
	}
	return out
}
