package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// plan says how a property is explored: which worker binary, how many runs
// per tier, how many runs share one process, and the time after which no new
// batch is started.
type plan struct {
	kind            string
	quick, thorough int
	batch           int
	capS            int // seconds, quick
	limitStepsM     int
	level           string
	rule            string
	real, stub      []string
	assumptions     []string
}

// known failure classes and the like
type failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type traceT map[string][][2]uint32

func (t traceT) size() int {
	n := 0
	for _, r := range t {
		n += len(r)
	}
	return n
}

type job struct {
	Prop    string   `json:"prop"`
	Tier    string   `json:"tier"`
	Seed    uint64   `json:"seed"`
	From    int      `json:"from"`
	To      int      `json:"to"`
	Replay  []traceT `json:"replay,omitempty"`
	DumpDir string   `json:"dumpdir,omitempty"`
	Scratch string   `json:"scratch"`
	Samples bool     `json:"samples"`
	Verbose bool     `json:"verbose,omitempty"`
	// no run starts after this time (Unix milliseconds), if set
	Until int64 `json:"until,omitempty"`
}

type event struct {
	T       string           `json:"t"`
	Run     int              `json:"run"`
	Hash    string           `json:"hash,omitempty"`
	Key     string           `json:"key,omitempty"`
	NT      bool             `json:"nt,omitempty"`
	Fails   []failure        `json:"fails,omitempty"`
	Trace   traceT           `json:"trace,omitempty"`
	Trunc   bool             `json:"trunc,omitempty"`
	Sample  string           `json:"sample,omitempty"`
	Stats   map[string]int64 `json:"stats,omitempty"`
	Faults  map[string]int64 `json:"faults,omitempty"`
	Trouble string           `json:"trouble,omitempty"`
}

type outcome struct {
	events  []event
	lastRun int // run in progress when the process ended, -1 if none
	crash   *failure
	trouble string
}

const runTimeout = 300 * time.Second

var scratchSeq struct {
	sync.Mutex
	n int
}

// runWorker runs one worker process to its end.
func runWorker(bin string, j job, work string, timeout time.Duration) outcome {
	scratchSeq.Lock()
	scratchSeq.n++
	j.Scratch = filepath.Join(work, fmt.Sprintf("s%d", scratchSeq.n))
	scratchSeq.Unlock()
	os.MkdirAll(j.Scratch, 0777)
	defer os.RemoveAll(j.Scratch)
	in, _ := json.Marshal(j)
	cmd := exec.Command(bin)
	cmd.Dir = j.Scratch
	cmd.Stdin = bytes.NewReader(in)
	var stderr limitedBuffer
	cmd.Stderr = &stderr
	cmd.Stdout = io.Discard
	cmd.Env = append(workerEnv(), "VERIF_DIR="+verifDir(), "VERIF_STUB="+stubGo(work))
	pr, pw, err := os.Pipe()
	if err != nil {
		return outcome{lastRun: -1, trouble: err.Error()}
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return outcome{lastRun: -1, trouble: err.Error()}
	}
	pw.Close()
	o := outcome{lastRun: -1}
	done := false
	timedOut := false
	timer := time.AfterFunc(timeout, func() { timedOut = true; cmd.Process.Kill() })
	stop := make(chan bool)
	grown := make(chan bool, 1)
	go watchMemory(cmd.Process, stop, grown)
	sc := bufio.NewReaderSize(pr, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			break
		}
		timer.Reset(timeout)
		var e event
		if json.Unmarshal(line, &e) != nil {
			continue
		}
		switch e.T {
		case "start":
			o.lastRun = e.Run
			continue
		case "end":
			o.lastRun = -1
		case "done":
			done = true
		}
		if e.Trouble != "" {
			o.trouble = e.Trouble
		}
		o.events = append(o.events, e)
	}
	pr.Close()
	err = cmd.Wait()
	timer.Stop()
	close(stop)
	tooBig := <-grown
	if os.Getenv("VERIF_STDERR") != "" {
		os.Stderr.Write(stderr.Bytes())
	}
	if done && err == nil {
		return o
	}
	if timedOut {
		o.trouble = fmt.Sprintf("worker timed out after %s in run %d", timeout, o.lastRun)
		return o
	}
	code := cmd.ProcessState.ExitCode()
	text := stderr.String()
	switch {
	case o.lastRun < 0:
		o.trouble = fmt.Sprintf("worker ended with %v outside a run:\n%s", err, text)
	case tooBig:
		o.crash = &failure{"memory exhausted", fmt.Sprintf("a run of a few small inputs took more than %d GB of memory", memoryLimit>>30)}
	case code == 66:
		o.crash = &failure{"data race", raceSummary(text)}
	case code == 77:
		o.crash = &failure{"hang", hangSummary(text)}
	case strings.Contains(text, "stack overflow") || strings.Contains(text, "stack exceeds"):
		o.crash = &failure{"stack overflow", crashSummary(text)}
	case strings.Contains(text, "fatal error: concurrent map"):
		o.crash = &failure{"concurrent map access", crashSummary(text)}
	case code == 78: // the code under test ended the process
		o.crash = &failure{"process exit", firstLine(text, "SIMEXIT")}
	case strings.Contains(text, "fatal error:"):
		o.crash = &failure{"fatal error", crashSummary(text)}
	default:
		o.trouble = fmt.Sprintf("worker ended with %v in run %d:\n%s", err, o.lastRun, text)
	}
	return o
}

// memoryLimit is far above what the largest correct run takes.
const memoryLimit = 3 << 30

// watchMemory ends a worker that takes more memory than any correct run
// needs, before it takes down the whole check, and reports whether it did.
func watchMemory(p *os.Process, stop chan bool, grown chan bool) {
	f, err := os.Open(fmt.Sprintf("/proc/%d/statm", p.Pid))
	if err != nil {
		<-stop
		grown <- false
		return
	}
	defer f.Close()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	buf := make([]byte, 256)
	for {
		select {
		case <-stop:
			grown <- false
			return
		case <-tick.C:
		}
		n, _ := f.ReadAt(buf, 0)
		if w := strings.Fields(string(buf[:n])); len(w) > 1 {
			if pages, _ := strconv.ParseInt(w[1], 10, 64); pages*int64(os.Getpagesize()) > memoryLimit {
				p.Kill()
				grown <- true
				return
			}
		}
	}
}

var stub struct {
	sync.Mutex
	dir string
}

// stubGo makes a directory with a go command that answers "go env" quickly.
func stubGo(work string) string {
	stub.Lock()
	defer stub.Unlock()
	dir := filepath.Join(work, "stub")
	if stub.dir != dir {
		stub.dir = dir
		os.MkdirAll(stub.dir, 0777)
		cmd := exec.Command("go", "env", "-json")
		cmd.Dir = work
		cmd.Env = append(workerEnv(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
		out, err := cmd.Output()
		if err != nil {
			fatal("go env: %v", err)
		}
		m := map[string]any{}
		if err := json.Unmarshal(out, &m); err != nil {
			fatal("go env: %v", err)
		}
		m["GOFLAGS"], m["GOMOD"], m["GOPROXY"] = "", "", "off"
		out, _ = json.Marshal(m)
		text := strings.ReplaceAll(string(out), "'", "")
		script := "#!/bin/sh\nif [ \"$1\" = env ]; then echo '" + text + "'; exit 0; fi\necho go: no network >&2\nexit 1\n"
		if err := os.WriteFile(filepath.Join(stub.dir, "go"), []byte(script), 0777); err != nil {
			fatal("%v", err)
		}
	}
	return stub.dir
}

func workerEnv() []string {
	return []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "GOMAXPROCS=1", "LANG=C",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=4", "GOTRACEBACK=single",
		"VERIF_STDERR=" + os.Getenv("VERIF_STDERR")}
}

// hangSummary is the hang message and the functions of the code under test
// that were active.
func hangSummary(text string) string {
	msg := firstLine(text, "SIMHANG")
	i := strings.Index(text, msg)
	n := 0
	for _, l := range strings.Split(text[i:], "\n") {
		if strings.HasPrefix(l, "aqwari.net/xml/") && !strings.Contains(l, "/verifsim/") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			msg += "\n  in " + l
			if n++; n == 8 {
				break
			}
		}
	}
	return msg
}

type limitedBuffer struct{ b []byte }

func (l *limitedBuffer) Write(p []byte) (int, error) {
	if room := 1<<16 - len(l.b); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		l.b = append(l.b, p[:room]...)
	}
	return len(p), nil
}
func (l *limitedBuffer) Bytes() []byte  { return l.b }
func (l *limitedBuffer) String() string { return string(l.b) }

func firstLine(text, prefix string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, prefix) {
			return l
		}
	}
	return ""
}

func raceSummary(text string) string {
	i := strings.Index(text, "WARNING: DATA RACE")
	if i >= 0 {
		text = text[i:]
	}
	lines := strings.Split(text, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func crashSummary(text string) string {
	for _, key := range []string{"fatal error:", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(text, key); i >= 0 {
			text = text[i:]
			break
		}
	}
	lines := strings.Split(text, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// ---- known findings

type finding struct{ prop, class, text string }

func knownFindings(verif string) []finding {
	data, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=ID class=<key> | text
		head, text, _ := strings.Cut(l[7:], " | ")
		f := finding{text: strings.TrimSpace(text)}
		if rest, ok := strings.CutPrefix(head, "property="); ok {
			id, cl, _ := strings.Cut(rest, " class=")
			f.prop, f.class = strings.TrimSpace(id), strings.TrimSpace(cl)
		}
		out = append(out, f)
	}
	return out
}

// ---- check

type agg struct {
	runs     int
	hashes   map[string]bool
	keys     map[string]bool
	nt       map[string]bool
	faults   map[string]int64
	stats    map[string]int64
	samples  []string
	maxSteps int64
}

func (a *agg) add(e event) {
	switch e.T {
	case "end":
		a.runs++
		a.hashes[e.Hash] = true
		a.keys[e.Key] = true
		if e.NT {
			a.nt[e.Key] = true
		}
		if e.Sample != "" && len(a.samples) < 6 {
			a.samples = append(a.samples, e.Sample)
		}
	case "done":
		for k, v := range e.Faults {
			a.faults[k] += v
		}
		for k, v := range e.Stats {
			if strings.HasPrefix(k, "max ") {
				if v > a.stats[k] {
					a.stats[k] = v
				}
				continue
			}
			a.stats[k] += v
		}
	}
}

type batchResult struct {
	n   int
	out outcome
	bin string
}

func workers() int { return 8 }

func check(prop, tier string, seed uint64) int {
	p, ok := plans[prop]
	if !ok {
		fatal("unknown property %s", prop)
	}
	start := time.Now()
	verif := verifDir()
	work := workDir(verif, prop)
	kinds := strings.Split(p.kind, "+")
	bins, b := buildBins(verif, work, kinds)
	buildS := time.Since(start).Seconds()
	total := p.quick
	capS := p.capS
	if tier == "thorough" {
		total = p.thorough
		capS = 1200
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		fmt.Sscan(s, &total)
	}
	known := map[string]finding{}
	for _, f := range knownFindings(verif) {
		if f.prop == prop {
			known[f.class] = f
		}
	}
	fmt.Printf("property %s tier %s seed %d: up to %d runs in batches of %d\n", prop, tier, seed, total, p.batch)
	exploreStart := time.Now()
	a := &agg{hashes: map[string]bool{}, keys: map[string]bool{}, nt: map[string]bool{}, faults: map[string]int64{}, stats: map[string]int64{}}
	nb := (total + p.batch - 1) / p.batch
	var mu sync.Mutex
	next := 0
	stop := false
	cut := false
	var results []batchResult
	var wg sync.WaitGroup
	seenKnown := map[string]bool{}
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= nb {
					mu.Unlock()
					return
				}
				if time.Since(exploreStart) > time.Duration(capS)*time.Second {
					cut = true
					mu.Unlock()
					return
				}
				n := next
				next++
				mu.Unlock()
				to := (n + 1) * p.batch
				if to > total {
					to = total
				}
				bin := bins[kinds[n%len(kinds)]]
				j := job{Prop: prop, Tier: tier, Seed: seed, From: n * p.batch, To: to, Samples: n < 3,
					Until: exploreStart.Add(time.Duration(capS+10) * time.Second).UnixMilli()}
				o := runWorker(bin, j, work, runTimeout)
				mu.Lock()
				for _, e := range o.events {
					a.add(e)
					for _, f := range e.Fails {
						if _, ok := known[f.Class]; ok {
							seenKnown[f.Class] = true
						}
					}
				}
				if o.trouble != "" || unlisted(o, known) {
					stop = true
					results = append(results, batchResult{n, o, bin})
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	exploreS := time.Since(exploreStart).Seconds()
	cut = cut || len(results) == 0 && a.runs < total
	sort.Slice(results, func(i, j int) bool { return results[i].n < results[j].n })

	code := 0
	violations := 0
	var vmsg string
	for _, r := range results {
		if !unlisted(r.out, known) {
			continue
		}
		violations++
		vmsg = report(prop, tier, seed, p, r, known, verif, work)
		code = 1
		break
	}
	if code == 0 {
		for _, r := range results {
			if r.out.trouble != "" {
				fatal("%s", r.out.trouble)
			}
		}
	}
	if code == 0 {
		var ks []string
		for k := range known {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			// listed findings are printed whether or not this seed met them
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[k].text)
		}
	}
	writeEvidence(prop, tier, seed, p, a, verif, buildS, exploreS, time.Since(start).Seconds(), violations, cut, b, seenKnown)
	if code == 1 {
		fmt.Println(vmsg)
	} else {
		fmt.Printf("ok: %d runs, %d distinct non-trivial, %.1fs exploring, %.1fs in all\n", a.runs, len(a.nt), exploreS, time.Since(start).Seconds())
	}
	return code
}

func unlisted(o outcome, known map[string]finding) bool {
	if o.crash != nil {
		if _, ok := known[o.crash.Class]; !ok {
			return true
		}
	}
	for _, e := range o.events {
		for _, f := range e.Fails {
			if _, ok := known[f.Class]; !ok {
				return true
			}
		}
	}
	return false
}

func firstUnlisted(o outcome, known map[string]finding) (run int, f failure, tr traceT, ok bool) {
	for _, e := range o.events {
		for _, f := range e.Fails {
			if _, k := known[f.Class]; !k {
				return e.Run, f, e.Trace, true
			}
		}
	}
	if o.crash != nil {
		if _, k := known[o.crash.Class]; !k {
			return o.lastRun, *o.crash, nil, true
		}
	}
	return
}

func writeEvidence(prop, tier string, seed uint64, p plan, a *agg, verif string, buildS, exploreS, wallS float64, violations int, cut bool, b *builder, seenKnown map[string]bool) {
	hours := exploreS / 3600
	if hours == 0 {
		hours = 1e-9
	}
	var kf []string
	for k := range seenKnown {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	samples := a.samples
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	simS := float64(a.stats["simulated ns"]) / 1e9
	delete(a.stats, "simulated ns")
	cov := map[string]any{
		"evaluations":                a.runs,
		"distinct_nontrivial":        len(a.nt),
		"rule":                       p.rule,
		"samples":                    samples,
		"distinct_cases":             len(a.keys),
		"distinct_interleavings":     len(a.hashes),
		"interleaving_measure":       "distinct hashes over the event log of a run: task switches with the site where they happened, map permutations, injected faults and results",
		"runs_per_hour":              int(float64(a.runs) / hours),
		"simulated_seconds":          simS,
		"faults_injected":            a.faults,
		"counters":                   a.stats,
		"components_real":            p.real,
		"components_stub":            p.stub,
		"seeds":                      fmt.Sprintf("run i uses Mix(VERIF_SEED=%d, property, i), i in [0,%d)", seed, a.runs),
		"build_s":                    buildS,
		"explore_s":                  exploreS,
		"stopped_by_time_cap":        cut,
		"instrumentation":            b.in.Stats,
		"known_findings_met":         kf,
		"worker_processes_at_a_time": workers(),
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"wall_s": wallS, "violations": violations, "assumptions": p.assumptions}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0777)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(data, '\n'), 0666); err != nil {
		fatal("%v", err)
	}
}

// determinism runs the same seeds twice, in different batch sizes and worker
// counts, and compares the event hashes.
func determinism(props []string, seed uint64) int {
	verif := verifDir()
	bad := 0
	for _, prop := range props {
		p := plans[prop]
		work := workDir(verif, prop)
		kinds := strings.Split(p.kind, "+")
		bins, _ := buildBins(verif, work, kinds)
		total := 400
		if s := os.Getenv("VERIF_RUNS"); s != "" {
			fmt.Sscan(s, &total)
		}
		for _, k := range kinds {
			collect := func(batch, par int) map[int]string {
				out := map[int]string{}
				var mu sync.Mutex
				sem := make(chan bool, par)
				var wg sync.WaitGroup
				for from := 0; from < total; from += batch {
					to := from + batch
					if to > total {
						to = total
					}
					wg.Add(1)
					sem <- true
					go func(from, to int) {
						defer wg.Done()
						o := runWorker(bins[k], job{Prop: prop, Tier: "quick", Seed: seed, From: from, To: to}, work, runTimeout)
						mu.Lock()
						for _, e := range o.events {
							if e.T == "end" {
								out[e.Run] = e.Hash + fmt.Sprint(e.Fails)
							}
						}
						if o.crash != nil {
							out[o.lastRun] = o.crash.Class
						}
						if o.trouble != "" {
							fmt.Println("trouble:", o.trouble)
						}
						mu.Unlock()
						<-sem
					}(from, to)
				}
				wg.Wait()
				return out
			}
			x, y, z := collect(p.batch, 8), collect(p.batch, 3), collect(1+p.batch/3, 8)
			diff := 0
			for i := 0; i < total; i++ {
				if x[i] != y[i] || x[i] != z[i] {
					diff++
					if diff < 5 {
						fmt.Printf("%s %s run %d: %s | %s | %s\n", prop, k, i, x[i], y[i], z[i])
					}
				}
			}
			fmt.Printf("%s %s: %d runs three times (worker counts 8, 3, 8; batches %d, %d, %d), %d differ\n", prop, k, total, p.batch, p.batch, 1+p.batch/3, diff)
			bad += diff
		}
		cleanup()
	}
	if bad > 0 {
		return 2
	}
	return 0
}
