package scen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"

	cmdwsdlgen "aqwari.net/xml/internal/verifsim/cmds/wsdlgen"
	cmdxsdgen "aqwari.net/xml/internal/verifsim/cmds/xsdgen"
	cmdxsdparse "aqwari.net/xml/internal/verifsim/cmds/xsdparse"
	"aqwari.net/xml/internal/verifsim/simrt"
	"aqwari.net/xml/wsdlgen"
)

// The simulated file system: every system call that the command under test
// makes on a file below the scratch directory is an operation with an index;
// faults and crashes are addressed by it.

const (
	clInput  = "input"  // a document the command has to read
	clOutput = "output" // opened for writing
	clOther  = "other"
)

type fsFile struct {
	path  string
	class string
	off   int
}

type fsOp struct {
	op, path, class string
	size, off       int
}

func (o fsOp) String() string { return o.op + " " + o.path }

// fsFault is a fault at operation number at (and the ones like it that
// follow, if it stays).
type fsFault struct {
	at    int
	kind  int // index into the kinds of faults for the operation, modulo
	cut   int // for faults in the middle of a transfer
	stays bool
	crash int // 0 no crash, 1 before the operation, 2 after it, 3 in its middle
}

type fsim struct {
	mu     sync.Mutex
	t      *T
	inputs map[string]int // path -> size
	starts map[string][2]int
	fds    map[int]*fsFile
	n      int
	ops    []fsOp
	faults []fsFault

	cutAt   map[string]int
	sticky  map[string]fsKind
	crashed bool
	exiting bool // the task has been ended
	budget  int  // bytes that may still be written, -1 unlimited
	chunk   int  // the most a read of an input gives, 0 unlimited

	must []string // faults after which the command has to fail
	soft []string // faults after which it may fail
	log  []string
}

type fsKind struct {
	name  string
	errno syscall.Errno
	mode  int
	must  bool
}

const (
	mFail  = iota // the call fails without effect
	mAfter        // the call is made and then fails
	mShort        // the transfer is short
	mEOF          // the file ends early
	mZero         // a write that writes nothing
	mHalf         // a write that writes a part, then fails
)

var openKinds = []fsKind{
	{"ENOENT", syscall.ENOENT, mFail, true}, {"EACCES", syscall.EACCES, mFail, true}, {"EIO", syscall.EIO, mFail, true},
	{"EMFILE", syscall.EMFILE, mFail, true}, {"ENFILE", syscall.ENFILE, mFail, true}, {"ELOOP", syscall.ELOOP, mFail, true},
	{"EINTR", syscall.EINTR, mFail, false}, {"ENOMEM", syscall.ENOMEM, mFail, true},
}
var createKinds = []fsKind{
	{"ENOSPC", syscall.ENOSPC, mFail, true}, {"EACCES", syscall.EACCES, mFail, true}, {"EROFS", syscall.EROFS, mFail, true},
	{"EDQUOT", syscall.EDQUOT, mFail, true}, {"EIO", syscall.EIO, mFail, true}, {"EMFILE", syscall.EMFILE, mFail, true},
	{"EINTR", syscall.EINTR, mFail, false}, {"EISDIR", syscall.EISDIR, mFail, true}, {"ETXTBSY", syscall.ETXTBSY, mFail, true},
}
var readKinds = []fsKind{
	{"EIO", syscall.EIO, mFail, true}, {"end of file", 0, mEOF, true}, {"short read", 0, mShort, false},
	{"ESTALE", syscall.ESTALE, mFail, true}, {"EINTR", syscall.EINTR, mFail, false}, {"EISDIR", syscall.EISDIR, mFail, true},
	{"end of file in the data", 0, mEOF, true}, {"ENOMEM", syscall.ENOMEM, mFail, true},
}
var writeKinds = []fsKind{
	{"ENOSPC", syscall.ENOSPC, mFail, true}, {"part, then ENOSPC", syscall.ENOSPC, mHalf, true}, {"short write", 0, mShort, false},
	{"EIO", syscall.EIO, mFail, true}, {"EIO after the write", syscall.EIO, mAfter, true}, {"EINTR", syscall.EINTR, mFail, false},
	{"EDQUOT", syscall.EDQUOT, mFail, true}, {"writes 0 bytes", 0, mZero, true}, {"EFBIG", syscall.EFBIG, mFail, true},
	{"part, then EDQUOT", syscall.EDQUOT, mHalf, true},
}
var closeKinds = []fsKind{
	{"EIO", syscall.EIO, mAfter, true}, {"ENOSPC", syscall.ENOSPC, mAfter, true}, {"EDQUOT", syscall.EDQUOT, mAfter, true}, {"EINTR", syscall.EINTR, mAfter, false},
}
var miscKinds = []fsKind{
	{"EIO", syscall.EIO, mFail, false}, {"EACCES", syscall.EACCES, mFail, false}, {"ENOSPC", syscall.ENOSPC, mFail, false},
	{"EROFS", syscall.EROFS, mFail, false}, {"EINTR", syscall.EINTR, mFail, false},
}

func kindsFor(op, class string) []fsKind {
	switch op {
	case "openat":
		if class == clOutput {
			return createKinds
		}
		return openKinds
	case "read":
		return readKinds
	case "write":
		return writeKinds
	case "Close":
		return closeKinds
	}
	return miscKinds
}

func (t *T) newFsim(inputs map[string][]byte, faults ...fsFault) *fsim {
	f := &fsim{t: t, inputs: map[string]int{}, starts: map[string][2]int{}, fds: map[int]*fsFile{}, faults: faults,
		cutAt: map[string]int{}, sticky: map[string]fsKind{}, budget: -1}
	for p, d := range inputs {
		p = filepath.Clean(p)
		f.inputs[p] = len(d)
		f.starts[p] = docElement(d)
	}
	return f
}

// docElement returns where the document element begins and ends.
func docElement(d []byte) [2]int {
	none := [2]int{len(d), len(d)}
	dec := xml.NewDecoder(bytes.NewReader(d))
	dec.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	depth, start := 0, 0
	for {
		off := dec.InputOffset()
		tok, err := dec.RawToken()
		if err != nil {
			return none
		}
		switch tok.(type) {
		case xml.StartElement:
			if depth == 0 {
				start = int(off)
			}
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				// the offsets may be off a little after a change of encoding
				end := min(int(dec.InputOffset()), len(d))
				return [2]int{min(start+3, end), bytes.LastIndexByte(d[:end], '>') + 1}
			}
		}
	}
}

// inside reports whether a document cut off after n bytes is cut off inside
// its document element.
func (f *fsim) inside(path string, n int) bool {
	e, ok := f.starts[path]
	return ok && n > e[0] && n < e[1]
}

func (f *fsim) relevant(path string) (string, bool) {
	if path == "" {
		return "", false
	}
	if filepath.IsAbs(path) {
		r, err := filepath.Rel(f.t.Scratch, path)
		if err != nil || strings.HasPrefix(r, "..") {
			return "", false
		}
		return r, true
	}
	return filepath.Clean(path), true
}

func (f *fsim) classify(path string, flags int) string {
	if flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		return clOutput
	}
	if _, ok := f.inputs[path]; ok {
		return clInput
	}
	return clOther
}

func (f *fsim) install() {
	fsMu.Lock()
	fsCur = f
	fsMu.Unlock()
	if syscall.VerifIO == nil {
		syscall.VerifIODone = fsDone
		syscall.VerifIO = fsIO
	}
}

// The hooks stay in place, as finalizers may be in the middle of a call.
var (
	fsMu  sync.Mutex
	fsCur *fsim
)

func fsCurrent() *fsim {
	fsMu.Lock()
	defer fsMu.Unlock()
	return fsCur
}

func fsIO(op string, fd int, path string, size int) (pass bool, limit, n int, errno, after syscall.Errno) {
	if f := fsCurrent(); f != nil {
		return f.io(op, fd, path, size)
	}
	return true, -1, 0, 0, 0
}

func fsDone(op string, fd int, path string, n int, err error) {
	if f := fsCurrent(); f != nil {
		f.done(op, fd, path, n, err)
	}
}

func clearFaults() {
	fsMu.Lock()
	fsCur = nil
	fsMu.Unlock()
}

// end ends the command's task, once.
func (f *fsim) end() {
	if !f.exiting && simrt.IsTask() {
		f.exiting = true
		simrt.Kill()
		runtime.Goexit()
	}
}

func (f *fsim) io(op string, fd int, path string, size int) (pass bool, limit, n int, errno, after syscall.Errno) {
	f.mu.Lock()
	exit := false
	defer func() {
		f.mu.Unlock()
		if exit {
			f.end()
		}
	}()
	limit = -1
	var file *fsFile
	class := clOther
	switch op {
	case "read", "write", "Close", "Fsync", "Ftruncate", "Fchmod", "Fstat":
		file = f.fds[fd]
		if file == nil {
			return true, -1, 0, 0, 0
		}
		path, class = file.path, file.class
	default:
		p, ok := f.relevant(path)
		if !ok {
			return true, -1, 0, 0, 0
		}
		path = p
		if op == "openat" {
			class = f.classify(path, fd)
		}
	}
	if f.crashed {
		// the process is gone: nothing it does has an effect any more
		if op == "Close" {
			return true, -1, 0, 0, syscall.EIO
		}
		return false, -1, 0, syscall.EIO, 0
	}
	k := f.n
	f.n++
	o := fsOp{op, path, class, size, 0}
	if file != nil {
		o.off = file.off
	}
	f.ops = append(f.ops, o)
	simrt.Note(hash(op+path) + uint64(size))
	if op == "read" {
		if c, ok := f.cutAt[path]; ok {
			if file.off >= c {
				return false, -1, 0, 0, 0
			}
			if file.off+size > c {
				limit = c - file.off
			}
		}
	}
	if op == "read" && f.chunk > 0 && class == clInput && size > f.chunk {
		if limit < 0 || limit > f.chunk {
			limit = f.chunk
		}
		f.t.Fault("read in pieces")
	}
	if op == "write" && f.budget >= 0 {
		if f.budget == 0 {
			f.hit(&f.must, k, o, "disk full")
			return false, -1, 0, syscall.ENOSPC, 0
		}
		if size > f.budget {
			limit = f.budget
		}
	}
	if s, ok := f.sticky[op+class]; ok {
		f.note(k, o, s, " (stays)")
		return f.apply(s, file, o, fsFault{cut: 1})
	}
	for _, ft := range f.faults {
		if ft.at != k {
			continue
		}
		switch ft.crash {
		case 1:
			f.t.Fault("crash before " + op)
			f.log = append(f.log, fmt.Sprintf("crash before operation %d (%s)", k, o))
			f.crashed = true
			exit = true
			if op == "Close" {
				return true, -1, 0, 0, syscall.EIO
			}
			return false, -1, 0, syscall.EIO, 0
		case 2, 3:
			f.t.Fault("crash at " + op)
			if op == "write" && ft.crash == 3 && size > 1 {
				limit = 1 + ft.cut%(size-1)
			}
			f.log = append(f.log, fmt.Sprintf("crash at operation %d (%s)", k, o))
			f.crashed = true // takes effect in done
			return true, limit, 0, 0, 0
		}
		kinds := kindsFor(op, class)
		kd := kinds[ft.kind%len(kinds)]
		if ft.stays && kd.must {
			f.sticky[op+class] = kd
		}
		f.note(k, o, kd, "")
		return f.apply(kd, file, o, ft)
	}
	return true, limit, 0, 0, 0
}

func (f *fsim) hit(list *[]string, k int, o fsOp, what string) {
	msg := fmt.Sprintf("%s at operation %d (%s)", what, k, o)
	*list = append(*list, msg)
	f.log = append(f.log, msg)
	f.t.Fault(what + " in " + o.op + " of " + o.class)
}

func (f *fsim) note(k int, o fsOp, kd fsKind, suffix string) {
	must := kd.must
	switch o.op {
	case "openat", "read":
		must = must && o.class != clOther
		if o.class == clOutput && o.op == "read" {
			must = false
		}
	case "Close":
		must = must && o.class == clOutput
	}
	if kd.mode == mEOF {
		// decided when the cut is known, in apply
		must = false
	}
	if must {
		f.hit(&f.must, k, o, kd.name+suffix)
	} else {
		f.hit(&f.soft, k, o, kd.name+suffix)
	}
}

func (f *fsim) apply(kd fsKind, file *fsFile, o fsOp, ft fsFault) (pass bool, limit, n int, errno, after syscall.Errno) {
	switch kd.mode {
	case mFail:
		return false, -1, 0, kd.errno, 0
	case mAfter:
		return true, -1, 0, 0, kd.errno
	case mShort:
		if o.size > 1 {
			return true, 1 + ft.cut%(o.size-1), 0, 0, 0
		}
		return true, -1, 0, 0, 0
	case mEOF:
		c := file.off
		if kd.name != "end of file" && f.inputs[o.path] > c {
			c += ft.cut % (f.inputs[o.path] - c)
		}
		f.cutAt[o.path] = c
		if f.inside(o.path, c) {
			f.must = append(f.must, fmt.Sprintf("%s ends after %d of %d bytes", o.path, c, f.inputs[o.path]))
		}
		if c == file.off {
			return false, -1, 0, 0, 0
		}
		return true, c - file.off, 0, 0, 0
	case mZero:
		return false, -1, 0, 0, 0
	case mHalf:
		f.sticky[o.op+o.class] = fsKind{kd.name, kd.errno, mFail, true}
		if o.size > 1 {
			return true, 1 + ft.cut%(o.size-1), 0, 0, 0
		}
		return false, -1, 0, kd.errno, 0
	}
	return true, -1, 0, 0, 0
}

func (f *fsim) done(op string, fd int, path string, n int, err error) {
	f.mu.Lock()
	exit := f.crashed
	defer func() {
		f.mu.Unlock()
		if exit {
			f.end()
		}
	}()
	switch op {
	case "openat":
		if err == nil {
			if p, ok := f.relevant(path); ok {
				f.fds[n] = &fsFile{path: p, class: f.classify(p, fd)}
			}
		}
	case "read":
		if file := f.fds[fd]; file != nil && n > 0 {
			file.off += n
		}
	case "write":
		if file := f.fds[fd]; file != nil && n > 0 {
			file.off += n
			if f.budget > 0 {
				f.budget -= n
			}
		}
	case "Close":
		delete(f.fds, fd)
	}
}

// ---- commands

// cmdSpec is a command line and the way it is entered.
type cmdSpec struct {
	entry string // "xsdgen", "xsdgen.Config", "wsdlgen", "wsdlgen.Config", "wsdlgen.GenCLI", "GenSource"
	wsdl  bool
	files []string
	out   string // "" for the default
	flags []string
	opts  optSpec

	mapOrder bool // permute map iteration
}

// stdoutName is the file that xsdparse's standard output goes to.
const stdoutName = "stdout"

func (c cmdSpec) args() []string {
	a := append([]string{}, c.flags...)
	if c.out != "" {
		a = append(a, "-o", c.out)
	}
	return append(a, c.files...)
}

func (c cmdSpec) output() string {
	switch {
	case c.out != "":
		return c.out
	case c.wsdl:
		return "wsdlgen_output.go"
	}
	return "xsdgen_output.go"
}

func (c cmdSpec) String() string { return c.entry + " " + strings.Join(c.args(), " ") }

type cmdResult struct {
	failed  bool // returned an error, or ended the process with a non-zero status
	crashed bool
	what    string
	src     string // GenSource only
}

func (r cmdResult) String() string {
	switch {
	case r.crashed:
		return "crashed"
	case r.failed:
		return "failed: " + r.what
	}
	return "succeeded"
}

func (c cmdSpec) has(flag string) bool {
	for _, f := range c.flags {
		if f == flag {
			return true
		}
	}
	return false
}

// drawCmd chooses how to run the generator.
func drawCmd(s *simrt.Stream, set DocSet, files []string, opts optSpec) cmdSpec {
	c := cmdSpec{wsdl: set.WSDL, files: files, opts: opts}
	if set.WSDL {
		c.entry = []string{"wsdlgen", "wsdlgen.Config", "wsdlgen.GenCLI"}[s.Choose(3)]
	} else {
		c.entry = []string{"xsdgen", "xsdgen.Config"}[s.Choose(2)]
	}
	if s.Chance(3, 4) {
		c.out = []string{"gen.go", "out/gen.go", "./out/x.go", "out/noext"}[s.Choose(4)]
	}
	if s.Chance(1, 4) {
		c.flags = append(c.flags, "-pkg", "gen")
	}
	if s.Chance(1, 4) {
		c.flags = append(c.flags, []string{"-v", "-vv"}[s.Choose(2)])
	}
	if !set.WSDL {
		for _, ns := range opts.ns {
			c.flags = append(c.flags, "-ns", ns)
		}
	}
	return c
}

var devNull *os.File

// runCmd runs the command in the scratch directory under the simulated file
// system.
func (t *T) runCmd(f *fsim, c cmdSpec) (res cmdResult) {
	if devNull == nil {
		devNull, _ = os.OpenFile("/dev/null", os.O_RDWR, 0)
	}
	oldArgs, oldErr := os.Args, os.Stderr
	os.Stderr = devNull
	log.SetOutput(devNull)
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(t.Scratch); err != nil {
		panic(err)
	}
	returned, exited := false, false
	nfails := len(t.Fails)
	defer func() {
		clearFaults()
		onExit = nil
		os.Args, os.Stderr = oldArgs, oldErr
		os.Chdir(wd)
	}()
	name := "xsdgen"
	if c.wsdl {
		name = "wsdlgen"
	}
	if c.entry == "xsdparse" {
		name = "xsdparse"
	}
	os.Args = append([]string{name}, c.args()...)
	onExit = func(code int) {
		// the process is gone from here
		f.mu.Lock()
		f.crashed, f.exiting = true, true
		f.mu.Unlock()
		exited = true
		res.failed = code != 0
		res.what = fmt.Sprintf("exit status %d", code)
		simrt.Kill()
		runtime.Goexit()
	}
	simrt.MapOrder(c.mapOrder)
	simrt.Restart() // each command is a process
	if c.entry == "xsdparse" {
		p := filepath.Join(t.Scratch, stdoutName)
		out, err := os.OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
		if err != nil {
			panic(err)
		}
		f.fds[int(out.Fd())] = &fsFile{path: stdoutName, class: clOutput}
		oldOut := os.Stdout
		os.Stdout = out
		defer func() {
			os.Stdout = oldOut
			clearFaults()
			out.Close()
		}()
	}
	f.install()
	t.Sim(func() {
		var err error
		switch c.entry {
		case "xsdgen":
			cmdxsdgen.Main()
		case "wsdlgen":
			cmdwsdlgen.Main()
		case "xsdparse":
			cmdxsdparse.Main()
		case "xsdgen.Config":
			err = c.opts.xsdConfig(0).GenCLI(c.args()...)
		case "wsdlgen.Config":
			err = c.opts.wsdlConfig(0).GenCLI(c.args()...)
		case "wsdlgen.GenCLI":
			err = wsdlgen.GenCLI(c.args()...)
		case "GenSource":
			var b []byte
			if c.wsdl {
				b, err = c.opts.wsdlConfig(0).GenSource(c.files...)
			} else {
				b, err = c.opts.xsdConfig(0).GenSource(c.files...)
			}
			res.src = string(b)
		}
		returned = true
		if err != nil {
			res.failed, res.what = true, err.Error()
		}
		if c.entry != "GenSource" {
			// the process ends, whatever its other goroutines do
			simrt.Kill()
		}
	})
	if !returned && !exited {
		if len(t.Fails) > nfails {
			res.failed, res.what = true, "panic"
		} else {
			res.crashed = true
		}
	}
	if returned && f.crashed && !exited {
		res.crashed = true
	}
	return res
}

// reset empties the scratch directory and writes files into it.
func (t *T) reset(files map[string][]byte) {
	ents, _ := os.ReadDir(t.Scratch)
	for _, e := range ents {
		os.RemoveAll(filepath.Join(t.Scratch, e.Name()))
	}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t.Write(n, files[n])
	}
}

// content returns a file's content, and whether it exists.
func (t *T) content(name string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(t.Scratch, name))
	if err != nil {
		return "", !os.IsNotExist(err)
	}
	return string(b), true
}

func remove(p string) { os.RemoveAll(p) }
func symlink(to, p string) {
	if err := os.Symlink(to, p); err != nil {
		panic(err)
	}
}

func sortedPaths(m map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
