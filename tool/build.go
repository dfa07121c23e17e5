package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// builder builds the simulation binaries from /repo's working tree, without
// writing there: everything that differs from it is in a build overlay.
type builder struct {
	repo, verif, work string
	replace           map[string]string
	in                *instrumenter
	goroot            string
	log               []string
	skipped           int
}

type goPkg struct {
	ImportPath, Dir, Name, Export string
	Standard                      bool
	GoFiles                       []string
	CompiledGoFiles               []string
}

func goEnv(extra ...string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GORACE", "GODEBUG", "GOEXPERIMENT", "GOOS", "GOARCH":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	return append(env, extra...)
}

func (b *builder) run(dir string, env []string, args ...string) ([]byte, error) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = env
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		return stdout.Bytes(), fmt.Errorf("%s: %v\n%s%s", strings.Join(args, " "), err, stderr.String(), stdout.String())
	}
	return stdout.Bytes(), nil
}

func newBuilder(repo, verif, work string) (*builder, error) {
	b := &builder{repo: repo, verif: verif, work: work, replace: map[string]string{}}
	for _, f := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(verif, "tool", "mod", f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(work, f), data, 0666); err != nil {
			return nil, err
		}
	}
	out, err := b.run(repo, goEnv(), "go", "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	b.goroot = strings.TrimSpace(string(out))
	return b, nil
}

func (b *builder) modfile() string { return "-modfile=" + filepath.Join(b.work, "go.mod") }

// put adds a file to the overlay at a path of the source tree.
func (b *builder) put(path string, data []byte) error {
	name := filepath.Join(b.work, "ov", strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
	if err := os.MkdirAll(filepath.Dir(name), 0777); err != nil {
		return err
	}
	if err := os.WriteFile(name, data, 0666); err != nil {
		return err
	}
	b.replace[path] = name
	return nil
}

// addHarness maps /verif/harness/<d>/*.go to <repo>/internal/verifsim/<d>/.
func (b *builder) addHarness(dirs ...string) error {
	for _, d := range dirs {
		files, err := filepath.Glob(filepath.Join(b.verif, "harness", d, "*.go"))
		if err != nil || len(files) == 0 {
			return fmt.Errorf("no harness files in %s (%v)", d, err)
		}
		for _, f := range files {
			b.replace[filepath.Join(b.repo, "internal", "verifsim", d, filepath.Base(f))] = f
		}
	}
	return nil
}

func (b *builder) overlayFile() (string, error) {
	name := filepath.Join(b.work, "overlay.json")
	data, err := json.MarshalIndent(map[string]any{"Replace": b.replace}, "", " ")
	if err != nil {
		return "", err
	}
	// builds run at the same time: each sees a whole file
	tmp, err := os.CreateTemp(b.work, "overlay")
	if err != nil {
		return "", err
	}
	_, err = tmp.Write(data)
	if err1 := tmp.Close(); err == nil {
		err = err1
	}
	if err != nil {
		return "", err
	}
	return name, os.Rename(tmp.Name(), name)
}

// list loads the packages of the repository and the export data of everything
// they (and the given extra standard packages) need.
func (b *builder) list(extra ...string) ([]goPkg, error) {
	args := append([]string{"go", "list", b.modfile(), "-deps", "-export",
		"-json=ImportPath,Dir,Name,Export,Standard,GoFiles"}, "./...")
	args = append(args, extra...)
	out, err := b.run(b.repo, goEnv(), args...)
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []goPkg
	for dec.More() {
		var p goPkg
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

// instrumentRepo rewrites every library package of the repository.
func (b *builder) instrumentRepo(pkgs []goPkg) error {
	b.in = &instrumenter{module: "aqwari.net/xml", exports: map[string]string{}, Stats: map[string]int{}}
	for _, p := range pkgs {
		if p.Export != "" {
			b.in.exports[p.ImportPath] = p.Export
		}
	}
	for _, p := range pkgs {
		if p.Standard || !strings.HasPrefix(p.Dir, b.repo) || p.Name == "main" {
			continue
		}
		rel := strings.TrimPrefix(p.Dir, b.repo)
		if strings.HasPrefix(rel, "/gentests") || strings.Contains(rel, "/examples") {
			continue
		}
		var files []string
		for _, f := range p.GoFiles {
			files = append(files, filepath.Join(p.Dir, f))
		}
		if err := b.instrument(p.ImportPath, files); err != nil {
			return err
		}
	}
	return nil
}

func (b *builder) instrument(path string, files []string) error {
	out, err := b.in.instrumentPackage(path, files)
	if err != nil {
		return err
	}
	for name, data := range out {
		if err := b.put(name, data); err != nil {
			return err
		}
	}
	return nil
}

type stdPatch struct {
	file string
	subs []string // old, new pairs; every old must occur exactly once
	tail string
}

var ioHook = `
// VerifIO, if set, decides the outcome of file operations.  It returns
// pass=true to let the call through (limited to limit bytes if limit >= 0);
// otherwise the call returns (n, errno) without being made.  after != 0 makes
// the call and then reports that error.
var VerifIO func(op string, fd int, path string, size int) (pass bool, limit int, n int, errno Errno, after Errno)

// VerifIODone, if set, is told the result of calls that were made.
var VerifIODone func(op string, fd int, path string, n int, err error)
`

func hookRW(op string) (string, string) {
	old := "func " + op + "(fd int, p []byte) (n int, err error) {"
	neu := `func ` + op + `(fd int, p []byte) (n int, err error) {
	if VerifIO == nil {
		return ` + op + `Real(fd, p)
	}
	pass, limit, rn, errno, after := VerifIO("` + op + `", fd, "", len(p))
	if !pass {
		if errno != 0 {
			return -1, errno
		}
		return rn, nil
	}
	if limit >= 0 && limit < len(p) {
		p = p[:limit]
	}
	n, err = ` + op + `Real(fd, p)
	VerifIODone("` + op + `", fd, "", n, err)
	if err == nil && after != 0 {
		return -1, after
	}
	return n, err
}

func ` + op + `Real(fd int, p []byte) (n int, err error) {`
	return old, neu
}

// hookCall wraps a function that returns only an error (params is its
// parameter list, args the argument list, fd and path expressions).
func hookCall(name, params, args, fd, path, size string) (string, string) {
	old := "func " + name + "(" + params + ") (err error) {"
	neu := old + `
	if VerifIO == nil {
		return ` + name + `Real(` + args + `)
	}
	pass, _, _, errno, after := VerifIO("` + name + `", ` + fd + `, ` + path + `, ` + size + `)
	if !pass {
		if errno != 0 {
			return errno
		}
		return nil
	}
	err = ` + name + `Real(` + args + `)
	VerifIODone("` + name + `", ` + fd + `, ` + path + `, 0, err)
	if err == nil && after != 0 {
		return after
	}
	return err
}

func ` + name + `Real(` + params + `) (err error) {`
	return old, neu
}

func stdPatches() []stdPatch {
	sys := stdPatch{file: "syscall/zsyscall_linux_amd64.go", tail: ioHook}
	add := func(old, neu string) { sys.subs = append(sys.subs, old, neu) }
	add(hookRW("read"))
	add(hookRW("write"))
	add(`func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {`,
		`func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if VerifIO == nil {
		return openatReal(dirfd, path, flags, mode)
	}
	pass, _, _, errno, _ := VerifIO("openat", flags, path, 0)
	if !pass {
		return -1, errno
	}
	fd, err = openatReal(dirfd, path, flags, mode)
	VerifIODone("openat", flags, path, fd, err)
	return fd, err
}

func openatReal(dirfd int, path string, flags int, mode uint32) (fd int, err error) {`)
	add(hookCall("Close", "fd int", "fd", "fd", `""`, "0"))
	add(hookCall("Fsync", "fd int", "fd", "fd", `""`, "0"))
	add(hookCall("Ftruncate", "fd int, length int64", "fd, length", "fd", `""`, "int(length)"))
	add(hookCall("Fchmod", "fd int, mode uint32", "fd, mode", "fd", `""`, "0"))
	add(hookCall("Fstat", "fd int, stat *Stat_t", "fd, stat", "fd", `""`, "0"))
	add(hookCall("fstatat", "fd int, path string, stat *Stat_t, flags int", "fd, path, stat, flags", "-1", "path", "0"))
	add(hookCall("unlinkat", "dirfd int, path string, flags int", "dirfd, path, flags", "-1", "path", "0"))
	add(hookCall("Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string", "olddirfd, oldpath, newdirfd, newpath", "-1", "newpath", "0"))
	add(hookCall("Mkdirat", "dirfd int, path string, mode uint32", "dirfd, path, mode", "-1", "path", "0"))
	add(hookCall("Truncate", "path string, length int64", "path, length", "-1", "path", "0"))

	zc := stdPatch{file: "os/zero_copy_linux.go", subs: []string{
		"func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {",
		"func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n\tif syscall.VerifIO != nil {\n\t\treturn 0, false, nil\n\t}",
		"func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {",
		"func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n\tif syscall.VerifIO != nil {\n\t\treturn 0, false, nil\n\t}",
	}}
	rnd := stdPatch{file: "runtime/rand.go", subs: []string{
		"func rand() uint64 {\n", `func rand() uint64 {
	if VerifRandOn {
		VerifRandState += 0x9e3779b97f4a7c15
		x := VerifRandState
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		return x ^ (x >> 31)
	}
`,
		"seed[i%len(seed)] ^= c", "seed[i%len(seed)] = byte(i) + c - c + 1"},
		tail: `
// VerifRandOn and VerifRandState make the runtime's random numbers (map
// seeds and iteration offsets among them) a function of the simulator's seed.
var VerifRandOn bool
var VerifRandState uint64
`}
	pool := stdPatch{file: "sync/pool.go", subs: []string{
		"		if runtime_randn(4) == 0 {", "		if true { // simulation: always drop, so that pools order nothing"}}
	exit := stdPatch{file: "os/proc.go", subs: []string{
		"func Exit(code int) {\n", "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n"},
		tail: `
// VerifExit, if set, is called by Exit first.
var VerifExit func(code int)
`}
	return []stdPatch{sys, zc, rnd, pool, exit}
}

func (b *builder) patchStd() error {
	for _, p := range stdPatches() {
		path := filepath.Join(b.goroot, "src", p.file)
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		s := string(data)
		for i := 0; i < len(p.subs); i += 2 {
			if strings.Count(s, p.subs[i]) != 1 {
				return fmt.Errorf("%s: expected exactly one %q", p.file, p.subs[i])
			}
			s = strings.Replace(s, p.subs[i], p.subs[i+1], 1)
		}
		if p.file == "os/zero_copy_linux.go" && !strings.Contains(s, `"syscall"`) {
			s = strings.Replace(s, "import (", "import (\n\t\"syscall\"", 1)
		}
		if err := b.put(path, []byte(s+p.tail)); err != nil {
			return err
		}
	}
	return nil
}

// addCommands puts the repository's commands into the overlay as packages
// whose main function is Main.  Their variables start anew on simrt.Restart.
func (b *builder) addCommands(names ...string) error {
	for _, name := range names {
		dir := filepath.Join(b.repo, "cmd", name)
		bp, err := build.ImportDir(dir, 0)
		if err != nil {
			return err
		}
		tmp := filepath.Join(b.work, "cmds", name)
		if err := os.MkdirAll(tmp, 0777); err != nil {
			return err
		}
		var files []string
		for _, f := range bp.GoFiles {
			path := filepath.Join(dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				return err
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			type edit struct {
				from, to int
				s        string
			}
			// the package clause, with any import comment behind it
			end := off(file.Name.End())
			if i := bytes.IndexByte(src[end:], '\n'); i >= 0 {
				end += i
			} else {
				end = len(src)
			}
			edits := []edit{{off(file.Package), end, "package cmd" + name}}
			ast.Inspect(file, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Name == "main" && id != file.Name {
					edits = append(edits, edit{off(id.Pos()), off(id.End()), "Main"})
				}
				return true
			})
			sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			for _, e := range edits {
				src = append(src[:e.from:e.from], append([]byte(e.s), src[e.to:]...)...)
			}
			out := filepath.Join(tmp, f)
			if err := os.WriteFile(out, src, 0666); err != nil {
				return err
			}
			files = append(files, out)
		}
		out, err := b.in.instrumentPackage("aqwari.net/xml/internal/verifsim/cmds/"+name, files)
		if err != nil {
			return err
		}
		to := filepath.Join(b.repo, "internal", "verifsim", "cmds", name)
		for f, src := range out {
			if err := b.put(filepath.Join(to, filepath.Base(f)), src); err != nil {
				return err
			}
		}
		// The name comes first, so that the flags start anew before the
		// variables do.
		src := fmt.Sprintf("package cmd%s\n\nimport (\n\t\"flag\"\n\t\"os\"\n\n\tsim %q\n)\n\nfunc init() { sim.OnRestart(func() { flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError) }) }\n",
			name, "aqwari.net/xml/internal/verifsim/simrt")
		if err := b.put(filepath.Join(to, "0_restart.go"), []byte(src)); err != nil {
			return err
		}
	}
	return nil
}

// build compiles one main package of the overlay.
func (b *builder) build(pkg, out string, race bool) error {
	ov, err := b.overlayFile()
	if err != nil {
		return err
	}
	args := []string{"go", "build", b.modfile(), "-overlay", ov, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/verifsim/"+pkg)
	_, err = b.run(b.repo, goEnv(), args...)
	return err
}

func (b *builder) statsLine() string {
	var ks []string
	for k, v := range b.in.Stats {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}
