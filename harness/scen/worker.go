package scen

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"syscall"
	"time"

	"aqwari.net/xml/internal/verifsim/simrt"
)

type traceT map[string][][2]uint32

type job struct {
	Prop    string
	Tier    string
	Seed    uint64
	From    int
	To      int
	Replay  []traceT
	DumpDir string
	Scratch string
	Samples bool
	Verbose bool
	Until   int64
}

type event struct {
	T       string           `json:"t"`
	Run     int              `json:"run"`
	Hash    string           `json:"hash,omitempty"`
	Key     string           `json:"key,omitempty"`
	NT      bool             `json:"nt,omitempty"`
	Fails   []Fail           `json:"fails,omitempty"`
	Trace   traceT           `json:"trace,omitempty"`
	Trunc   bool             `json:"trunc,omitempty"`
	Sample  string           `json:"sample,omitempty"`
	Stats   map[string]int64 `json:"stats,omitempty"`
	Faults  map[string]int64 `json:"faults,omitempty"`
	Trouble string           `json:"trouble,omitempty"`
}

func toRecs(t traceT) map[string][]simrt.Rec {
	out := map[string][]simrt.Rec{}
	for k, rs := range t {
		for _, r := range rs {
			out[k] = append(out[k], simrt.Rec{I: r[0], V: r[1]})
		}
	}
	return out
}

func fromRecs(m map[string][]simrt.Rec) traceT {
	out := traceT{}
	for k, rs := range m {
		for _, r := range rs {
			out[k] = append(out[k], [2]uint32{r.I, r.V})
		}
	}
	return out
}

// onExit, if set, is called when the code under test ends the process.
var onExit func(code int)

func exitHook(code int) {
	if code == simrt.HangExit {
		return
	}
	if onExit != nil {
		onExit(code)
	}
	rawWrite(2, []byte("SIMEXIT the code under test ended the process with status "+strconv.Itoa(code)+"\n"))
	os.VerifExit = nil
	os.Exit(78)
}

var realPath string

var envVars = [][]string{
	{"HOME", "/", "/tmp/other home"}, {"GOFLAGS", "-mod=mod", "-mod=vendor"},
	{"GO111MODULE", "off", "on"}, {"GOPATH", "/nonexistent/gopath", ""}, {"TMPDIR", "/nonexistent", "/"},
	{"TZ", "Asia/Kathmandu", "UTC"}, {"LANG", "tr_TR.UTF-8", "C.UTF-8"}, {"LC_ALL", "de_DE.UTF-8", ""}, {"USER", "nobody", "root"}, {"PWD", "/nonexistent", ""},
	{"DEBUG", "1", "true"}, {"NO_COLOR", "1", ""}, {"SOURCE_DATE_EPOCH", "1", "1700000000"}, {"XSDGEN", "1", "-v"},
}

// plainEnv is the environment that runs begin with.  The go command in its
// PATH is a stand-in that answers "go env" with what the real one says:
// x/tools/imports starts it once for every file formatted.
func plainEnv() {
	for _, e := range envVars {
		os.Unsetenv(e[0])
	}
	os.Setenv("PATH", os.Getenv("VERIF_STUB"))
	os.Setenv("HOME", "/nonexistent")
	if plainDir != "" {
		if wd, err := os.Getwd(); err == nil && wd != plainDir {
			os.Chdir(plainDir)
		}
		os.Args, time.Local = plainArgs, plainZone
	}
}

// the rest of the plain surroundings
var (
	plainDir  string
	plainArgs []string
	plainZone *time.Location
)

// drawEnv changes the process environment.
func drawEnv(stream string) {
	s := simrt.S(stream)
	for _, e := range envVars {
		if v := s.Choose(6); v == 4 || v == 5 {
			os.Setenv(e[0], e[v-3])
		}
	}
	if s.Chance(1, 6) {
		os.Setenv("PATH", realPath)
	}
	if s.Chance(1, 3) {
		// in another directory
		dir := filepath.Join(plainDir, fmt.Sprintf("wd%d", s.Choose(3)))
		if os.MkdirAll(dir, 0777) == nil {
			os.Chdir(dir)
		}
	}
	if s.Chance(1, 3) {
		// the name of the program is part of the output
		os.Args = append([]string{[]string{"", "/usr/bin/", "./"}[s.Choose(3)] + filepath.Base(plainArgs[0])}, []string{"-o", "out.go", "-v"}[:s.Choose(4)]...)
	}
	if s.Chance(1, 3) {
		time.Local = time.FixedZone("here", 3600*(s.Choose(25)-12))
	}
}

var realStdout *os.File // kept from being finalized

// WorkerMain reads a job from standard input and reports on descriptor 3.
func WorkerMain() {
	debug.SetMaxStack(128 << 20)
	data, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var j job
	if err := json.Unmarshal(data, &j); err != nil {
		panic(err)
	}
	// the report goes by the raw system call, out of reach of the fault hook
	report := func(e event) {
		b, err := json.Marshal(e)
		if err != nil {
			panic(err)
		}
		rawWrite(3, append(b, '\n'))
	}
	// standard output belongs to the code under test
	sc, ok := Scenarios[j.Prop]
	if !ok {
		panic("no scenario " + j.Prop)
	}
	if f, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		realStdout = os.Stdout
		os.Stdout = f
	}
	os.VerifExit = exitHook
	realPath = os.Getenv("PATH")
	plainDir, plainArgs, plainZone = j.Scratch, os.Args, time.Local
	plainEnv()
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer f.Close()
	}
	faults, stats := map[string]int64{}, map[string]int64{}
	one := func(i int, seed uint64, tr map[string][]simrt.Rec, samples bool) {
		rawWrite(3, []byte(`{"t":"start","run":`+strconv.Itoa(i)+"}\n"))
		fd := -1
		if j.DumpDir != "" {
			var err error
			fd, err = syscall.Open(filepath.Join(j.DumpDir, strconv.Itoa(i)), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, 0666)
			if err != nil {
				panic(err)
			}
			defer syscall.Close(fd)
		}
		simrt.Begin(seed, tr, fd)
		runtime.VerifRandState = uint64(simrt.S("rt").Choose(1 << 30))
		runtime.VerifRandOn = true
		dir := filepath.Join(j.Scratch, "r")
		if err := os.MkdirAll(dir, 0777); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		plainEnv()
		t := &T{Verif: os.Getenv("VERIF_DIR"), Scratch: dir, Tier: j.Tier, Samples: samples, Verbose: os.Getenv("VERIF_STDERR") != "",
			Faults: faults, Stats: stats, Limit: sc.Limit}
		sc.Run(t)
		runtime.VerifRandOn = false
		stats["simulated ns"] += simrt.SimNow()
		stats["task switches"] += simrt.Switches()
		stats["choices drawn"] += int64(simrt.Draws())
		e := event{T: "end", Run: i, Hash: fmt.Sprintf("%016x", simrt.EventHash()), Key: t.Key(), NT: t.Nontrivial, Fails: t.Fails}
		if samples {
			e.Sample = t.Desc()
		}
		if len(t.Fails) > 0 {
			tr, trunc := simrt.Trace()
			if !trunc {
				e.Trace = fromRecs(tr)
			}
			e.Trunc = trunc
		}
		report(e)
	}
	if j.Replay != nil {
		for i, tr := range j.Replay {
			one(i, 0, toRecs(tr), j.Samples)
		}
	} else {
		base := simrt.Mix(j.Seed, hash(j.Prop))
		for i := j.From; i < j.To; i++ {
			if j.Until > 0 && time.Now().UnixMilli() > j.Until {
				break
			}
			one(i, simrt.Mix(base, uint64(i)), nil, j.Samples && i < j.From+2)
		}
	}
	stats["map ranges permuted"] = simrt.MapsPermuted()
	if n := simrt.Uncanonical(); n > 0 {
		stats["map ranges without canonical key order"] = n
	}
	report(event{T: "done", Stats: stats, Faults: faults})
	pprof.StopCPUProfile()
	os.VerifExit = nil
	os.Exit(0)
}
