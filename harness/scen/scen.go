// Package scen contains the scenarios: for each property the workload, the
// faults and the oracle.
package scen

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"aqwari.net/xml/internal/verifsim/simrt"
)

type Fail struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// T is one simulated run.
type T struct {
	Verif, Scratch, Tier string
	Samples, Verbose     bool
	Race                 bool
	Fails                []Fail
	Faults, Stats        map[string]int64
	Nontrivial           bool
	key                  []byte
	desc                 []string
	Limit                int64
}

// Fail records a violation.
func (t *T) Fail(class, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	if len(t.Fails) < 20 {
		t.Fails = append(t.Fails, Fail{class, msg})
	}
	simrt.Note(hash(class))
}

// Case adds to the identity of the run's case; two runs with the same parts
// are the same case.
func (t *T) Case(parts ...any) {
	s := fmt.Sprint(parts...)
	h := sha256.Sum256(append(t.key, s...))
	t.key = h[:]
}

func (t *T) Key() string { return hex.EncodeToString(t.key[:min(8, len(t.key))]) }

// Descf adds a line to the description of the run.
func (t *T) Descf(format string, args ...any) {
	if t.Samples || t.Verbose {
		l := fmt.Sprintf(format, args...)
		t.desc = append(t.desc, l)
		if t.Verbose {
			rawWrite(2, []byte(l+"\n"))
		}
	}
}

func (t *T) Desc() string { return strings.Join(t.desc, "\n") }

func (t *T) Fault(kind string) { t.Faults[kind]++; simrt.Note(hash(kind)) }
func (t *T) Count(what string, n int64) {
	t.Stats[what] += n
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Sim runs the functions as simulated tasks.
func (t *T) Sim(fns ...func()) {
	simrt.Run(t.Limit, fns...)
	t.Stats["steps"] += simrt.Steps()
	if s := simrt.Steps(); s > t.Stats["max steps of a run"] {
		t.Stats["max steps of a run"] = s
	}
	for i := range fns {
		if p := simrt.TaskPanic(i); p != nil {
			t.Fail("panic", "%v\n%s", p, trimStack(simrt.TaskStack(i)))
		}
	}
	if p, stk := simrt.ExtraPanic(); p != nil {
		t.Fail("panic in a goroutine", "%v\n%s", p, trimStack(stk))
	}
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// restart makes what follows the work of a new process.
func (t *T) restart() {
	simrt.Restart()
	t.Fault("process restarts")
}

// Outcome of a call: a value, an error or a panic.
type Outcome struct {
	Val   string
	Err   error
	Panic any
	Stack string
}

func (o Outcome) Failed() bool { return o.Err != nil || o.Panic != nil }
func (o Outcome) String() string {
	switch {
	case o.Panic != nil:
		return fmt.Sprintf("panic: %v", o.Panic)
	case o.Err != nil:
		return "error: " + o.Err.Error()
	}
	return fmt.Sprintf("success (%d bytes)", len(o.Val))
}

// Same reports whether both succeeded with the same value, or both failed.
func (o Outcome) Same(p Outcome) bool {
	if o.Failed() || p.Failed() {
		return o.Failed() == p.Failed()
	}
	return o.Val == p.Val
}

// Try calls f, recovering from panics of the code under test.
func Try(f func() (string, error)) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Panic: r, Stack: trimStack(debug.Stack())}
		}
	}()
	v, err := f()
	return Outcome{Val: v, Err: err}
}

// diff shows the first differing lines of two texts.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	show := func(l []string) string {
		lo, hi := i-1, i+4
		if lo < 0 {
			lo = 0
		}
		if hi > len(l) {
			hi = len(l)
		}
		if lo > hi {
			lo = hi
		}
		return strings.Join(l[lo:hi], "\n    ")
	}
	return fmt.Sprintf("line %d of %d/%d:\n  first:\n    %s\n  second:\n    %s", i+1, len(x), len(y), show(x), show(y))
}

func outcomeDiff(a, b Outcome) string {
	if a.Failed() || b.Failed() {
		return fmt.Sprintf("%s / %s", a, b)
	}
	return diff(a.Val, b.Val)
}

// Write puts a file into the run's scratch directory and returns its path.
func (t *T) Write(name string, data []byte) string {
	p := filepath.Join(t.Scratch, name)
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, data, 0666); err != nil {
		panic(err)
	}
	return p
}

type Scenario struct {
	Run   func(*T)
	Limit int64 // steps per Sim call
}

var Scenarios = map[string]Scenario{}

func register(prop string, limit int64, f func(*T)) {
	Scenarios[prop] = Scenario{f, limit}
}

// Register adds a scenario of another package.
func Register(prop string, limit int64, f func(*T)) { register(prop, limit, f) }

// Restart makes what follows the work of a new process.
func (t *T) Restart() { t.restart() }

// Hash of a string.
func Hash(s string) uint64 { return hash(s) }

// Clip shortens a text for a description.
func Clip(b []byte) string { return clip(b) }

// choose is shorthand for a choice of stream name.
func choose(stream string, n int) int { return simrt.S(stream).Choose(n) }
func pick(stream string, n int) int   { return simrt.S(stream).Pick(n) }
func chance(stream string, num, den int) bool {
	return simrt.S(stream).Chance(num, den)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func clip(b []byte) string {
	if len(b) > 1500 {
		return string(b[:1500]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return string(b)
}
