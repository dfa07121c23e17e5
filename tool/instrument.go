package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter rewrites the sources of the packages under test so that the
// simulator decides what the language and runtime leave open:
//
//   - range over a map        -> seeded permutation of canonically sorted keys
//   - statement boundaries    -> scheduling points
//   - go, channels, select    -> simulated tasks / blocking points
//   - package sync            -> cooperative versions
//   - clock, pid, environment -> simulated values
//   - package-level variables -> can be set back to what they are when the
//     process starts (simrt.Restart)
//
// Rewriting is textual, at offsets given by the parser, and adds no lines, so
// positions in panics and race reports are those of the original files.  It
// works on whatever code is there: nothing names a function of the repository.

const simPath = "aqwari.net/xml/internal/verifsim/simrt"
const simSyncPath = "aqwari.net/xml/internal/verifsim/simsync"

type edit struct {
	start, end int
	text       string
	seq        int
	closer     bool
}

type instrumenter struct {
	exports map[string]string // import path -> export data file
	site    int
	module  string
	globals []int    // sites of the package that refer to package-level variables
	Sites   []string // site -> "file:line kind"
	Stats   map[string]int
}

func (in *instrumenter) newSite(pos token.Position, kind string) int {
	in.site++
	in.Sites = append(in.Sites, fmt.Sprintf("%s:%d %s", pos.Filename, pos.Line, kind))
	return in.site
}

// simulated replacements of package functions, by package path and name
var replaced = map[string]map[string]string{
	"time":    {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After"},
	"context": {"WithCancel": "WithCancel", "WithDeadline": "WithDeadline", "WithTimeout": "WithTimeout"},
	"os": {"Getenv": "Getenv", "LookupEnv": "LookupEnv", "Environ": "Environ",
		"Getpid": "Getpid", "Hostname": "Hostname"},
	"runtime": {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine"},
}

// instrumentPackage returns the rewritten text of each file.
func (in *instrumenter) instrumentPackage(path string, files []string) (map[string][]byte, error) {
	fset := token.NewFileSet()
	var asts []*ast.File
	src := map[string][]byte{}
	for _, name := range files {
		data, err := os.ReadFile(name)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(fset, name, data, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		src[name] = data
		asts = append(asts, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	lookup := func(p string) (io.ReadCloser, error) {
		f, ok := in.exports[p]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", p)
		}
		return os.Open(f)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
	if _, err := conf.Check(path, fset, asts, info); err != nil {
		return nil, fmt.Errorf("typecheck %s: %v", path, err)
	}
	out := map[string][]byte{}
	firstSite := in.site + 1
	in.globals = nil
	var rs []*rewriter
	var zero, assign, inits, tails []string
	for i, f := range asts {
		name := files[i]
		r := &rewriter{in: in, fset: fset, info: info, src: src[name], file: f, name: name}
		rs = append(rs, r)
		tail := r.rewrite()
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					fn := fmt.Sprintf("__verifInit%d", len(inits))
					r.replace(d.Name.Pos(), d.Name.End(), fn)
					tail += fmt.Sprintf("func init() { %s() }\n", fn)
					inits = append(inits, fn+"()")
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Values) > 0 {
						continue
					}
					for _, n := range vs.Names {
						if n.Name != "_" {
							zero = append(zero, fmt.Sprintf("__sim.Zero(&%s)", n.Name))
						}
					}
				}
			}
		}
		tails = append(tails, tail)
	}
	for k, init := range info.InitOrder {
		var lhs []string
		blank := true
		for _, v := range init.Lhs {
			lhs = append(lhs, v.Name())
			blank = blank && v.Name() == "_"
		}
		if blank {
			continue
		}
		for i, f := range asts {
			if init.Rhs.Pos() >= f.FileStart && init.Rhs.End() <= f.FileEnd {
				fn := fmt.Sprintf("__verifVar%d", k)
				tails[i] += fmt.Sprintf("func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), rs[i].applyTo(init.Rhs))
				assign = append(assign, fn+"()")
				in.Stats["package variables"]++
			}
		}
	}
	in.Stats["package variables"] += len(zero)
	all := append(append(zero, assign...), inits...)
	if len(all) > 0 {
		tails[0] += fmt.Sprintf("func init() { __sim.OnRestart(func() { %s }) }\n", strings.Join(all, "; "))
	}
	var globals strings.Builder
	for _, g := range in.globals {
		fmt.Fprintf(&globals, ", %d", g)
	}
	tails[0] += fmt.Sprintf("func init() { __sim.Sites(%q, %d, %d%s) }\n", path, firstSite, in.site+1, globals.String())
	for i, r := range rs {
		out[files[i]] = append(r.apply(), tails[i]...)
	}
	return out, nil
}

type rewriter struct {
	in     *instrumenter
	fset   *token.FileSet
	info   *types.Info
	src    []byte
	file   *ast.File
	name   string
	edits  []edit
	nextID int
	keep   map[string]bool // references to keep so that imports stay used
	recv2  map[*ast.UnaryExpr]bool
	inSel  map[ast.Node]bool // communication operations of select statements
	// outermost label of a labelled select statement
	labelOf map[ast.Stmt]token.Pos
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) replace(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, len(r.edits), false})
}
func (r *rewriter) open(at token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(at), r.off(at), text, len(r.edits), false})
}
func (r *rewriter) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *rewriter) id(prefix string) string {
	r.nextID++
	return fmt.Sprintf("__%s%d", prefix, r.nextID)
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// coreMap reports whether t is a map (not a type parameter).
func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// rewrite collects the edits of the file and returns what to append to it.
func (r *rewriter) rewrite() string {
	r.keep = map[string]bool{}
	r.recv2 = map[*ast.UnaryExpr]bool{}
	r.inSel = map[ast.Node]bool{}
	r.labelOf = map[ast.Stmt]token.Pos{}

	r.open(r.file.Name.End(), fmt.Sprintf("; import __sim %q", simPath))
	for _, imp := range r.file.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		if p == "sync" {
			t := strconv.Quote(simSyncPath)
			if imp.Name == nil {
				t = "sync " + t
			}
			r.replace(imp.Path.Pos(), imp.Path.End(), t)
			r.in.Stats["sync imports"]++
		}
	}
	// find two-value receives and select communications first
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		case *ast.LabeledStmt:
			at := n.Pos()
			if l, ok := r.labelOf[n]; ok {
				at = l
			}
			r.labelOf[n.Stmt] = at
		case *ast.CommClause:
			switch c := n.Comm.(type) {
			case *ast.SendStmt:
				r.inSel[c] = true
			case *ast.ExprStmt:
				r.inSel[c.X] = true
			case *ast.AssignStmt:
				r.inSel[c.Rhs[0]] = true
			}
		}
		return true
	})
	for _, d := range r.file.Decls {
		r.walk(d)
	}
	var tail strings.Builder
	tail.WriteString("\nvar _ = __sim.Y\n")
	var keeps []string
	for k := range r.keep {
		keeps = append(keeps, k)
	}
	sort.Strings(keeps)
	for _, k := range keeps {
		fmt.Fprintf(&tail, "var _ = %s\n", k)
	}
	return tail.String()
}

func (r *rewriter) apply() []byte { return r.applyRange(0, len(r.src)) }

// applyTo returns the rewritten text of one node.
func (r *rewriter) applyTo(n ast.Node) []byte {
	return r.applyRange(r.off(n.Pos()), r.off(n.End()))
}

func (r *rewriter) applyRange(from, to int) []byte {
	var es []edit
	for _, e := range r.edits {
		if e.start >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].start != es[j].start {
			return es[i].start < es[j].start
		}
		if es[i].closer != es[j].closer {
			return es[i].closer
		}
		return es[i].seq < es[j].seq
	})
	var b bytes.Buffer
	pos := from
	for _, e := range es {
		if e.start < pos {
			panic(fmt.Sprintf("overlapping edits in %s at %d: %q", r.name, e.start, e.text))
		}
		b.Write(r.src[pos:e.start])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(r.src[pos:to])
	return b.Bytes()
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			site := r.in.newSite(r.fset.Position(s.Pos()), "stmt")
			r.open(s.Pos(), fmt.Sprintf("__sim.Y(%d);", site))
			r.in.Stats["scheduling points"]++
			if r.usesGlobal(s) {
				r.in.globals = append(r.in.globals, site)
				r.in.Stats["points at package variables"]++
			}
		}
	}
}

// usesGlobal reports whether the statement itself, apart from statements in
// it, refers to a package-level variable of any package under test.
func (r *rewriter) usesGlobal(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				if strings.HasPrefix(v.Pkg().Path(), r.in.module) {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func (r *rewriter) walk(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			r.stmts(n.List)
		case *ast.CaseClause:
			r.stmts(n.Body)
		case *ast.CommClause:
			if len(n.Body) == 0 {
				r.open(n.Colon+1, " __sim.BlockEnd();")
			} else {
				r.open(n.Body[0].Pos(), "__sim.BlockEnd();")
			}
			r.stmts(n.Body)
		case *ast.RangeStmt:
			r.rangeStmt(n)
		case *ast.SelectStmt:
			hasDefault := false
			for _, c := range n.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					hasDefault = true
				}
			}
			at := n.Pos()
			if l, ok := r.labelOf[n]; ok {
				at = l
			}
			if hasDefault {
				r.open(at, "__sim.BlockPoll();")
			} else {
				r.open(at, "__sim.BlockBegin();")
			}
			r.in.Stats["select statements"]++
		case *ast.SendStmt:
			if !r.inSel[n] {
				r.open(n.Chan.Pos(), "__sim.Send(")
				r.replace(n.Arrow, n.Arrow+2, ",")
				r.closeAfterInner(n.Value.End(), ")")
				r.in.Stats["channel operations"]++
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !r.inSel[n] {
				fn := "__sim.Recv("
				if r.recv2[n] {
					fn = "__sim.Recv2("
				}
				r.replace(n.OpPos, n.OpPos+2, fn)
				// closer: inner nodes are closed first because they
				// are visited later but end no later; keep order by
				// using the node's own end
				r.closeAfterInner(n.X.End(), ")")
				r.in.Stats["channel operations"]++
			}
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					r.replace(id.Pos(), id.End(), "__sim.Close")
				}
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[x].(*types.PkgName); ok {
					if m := replaced[pn.Imported().Path()]; m != nil {
						if to, ok := m[n.Sel.Name]; ok {
							r.replace(n.Pos(), n.End(), "__sim."+to)
							r.keep[x.Name+"."+n.Sel.Name] = true
							r.in.Stats["clock/environment reads"]++
							return false
						}
					}
				}
			}
		}
		return true
	})
}

func (r *rewriter) closeAfterInner(at token.Pos, text string) {
	// inner closers at the same offset get smaller negative order by being
	// appended later; order closers so that later-recorded (inner) ones
	// come first
	r.edits = append(r.edits, edit{r.off(at), r.off(at), text, 1<<30 - len(r.edits), true})
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	t := under(r.info.Types[n.X].Type)
	switch t.(type) {
	case *types.Map:
		site := r.in.newSite(r.fset.Position(n.Pos()), "map")
		it := r.id("it")
		r.in.Stats["map ranges"]++
		kb, vb := isBlank(n.Key), isBlank(n.Value)
		args := ""
		var lhs, fn string
		switch {
		case kb && vb:
			fn = "IterNone"
		case vb:
			fn, args = "IterK", "&("+r.text(n.Key)+")"
			lhs = r.text(n.Key) + ", "
		case kb:
			fn, args = "IterV", "&("+r.text(n.Value)+")"
			lhs = r.text(n.Value) + ", "
		default:
			fn, args = "IterKV", "&("+r.text(n.Key)+"), &("+r.text(n.Value)+")"
			lhs = r.text(n.Key) + ", " + r.text(n.Value) + ", "
		}
		if n.Tok == token.ASSIGN {
			if !addressable(n.Key) || !addressable(n.Value) {
				r.in.Stats["map ranges left alone"]++
				return
			}
			if lhs != "" {
				lhs, fn = "", fn+"A"
			}
		}
		if n.Tok == token.DEFINE || n.Tok == token.ILLEGAL || lhs == "" {
			r.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s%s := __sim.%s(%d, ", lhs, it, fn, site))
			r.replace(n.X.End(), n.Body.Lbrace, fmt.Sprintf("); %s.Next(%s); ", it, args))
		}
	case *types.Chan:
		r.in.Stats["channel operations"]++
		it := r.id("it")
		switch {
		case isBlank(n.Key):
			r.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s := __sim.IterCh(", it))
			r.replace(n.X.End(), n.Body.Lbrace, fmt.Sprintf("); %s.Next(nil); ", it))
		case n.Tok == token.DEFINE:
			r.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s, %s := __sim.IterChV(", r.text(n.Key), it))
			r.replace(n.X.End(), n.Body.Lbrace, fmt.Sprintf("); %s.Next(&(%s)); ", it, r.text(n.Key)))
		default:
			r.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s := __sim.IterCh(", it))
			r.replace(n.X.End(), n.Body.Lbrace, fmt.Sprintf("); %s.Next(&(%s)); ", it, r.text(n.Key)))
		}
	}
}

func addressable(e ast.Expr) bool {
	switch e := e.(type) {
	case nil:
		return true
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return addressable(e.X)
	}
	return false
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	r.in.Stats["go statements"]++
	call := n.Call
	if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.replace(n.Go, call.Fun.Pos(), "__sim.Go(")
		r.replace(call.Fun.End(), call.End(), ")")
		return
	}
	// go f(a, b)  ->  go-args are evaluated now, the call runs in the task
	r.replace(n.Go, call.Fun.Pos(), "__sim.GoCall(")
	if len(call.Args) == 0 {
		r.replace(call.Lparen, call.End(), ")")
		return
	}
	r.replace(call.Lparen, call.Lparen+1, ", ")
	// GoCall(f, args...) uses reflection to call f; a trailing "..." is
	// dropped by spreading inside
	if call.Ellipsis.IsValid() {
		r.replace(call.Ellipsis, call.Ellipsis+3, ", __sim.Spread")
	}
}
