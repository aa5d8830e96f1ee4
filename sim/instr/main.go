// Command instr rewrites the Go packages of the code under test so that every
// source of nondeterminism goes through the simulator (vsa/zsim/...).
//
//	instr SRC OUT pkgpattern...
//
// SRC is a copy of the repository (module vsa), OUT receives the rewritten
// packages plus rewritten copies of a few std packages under zsim/zstd.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	Imports    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func goList(dir string, args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-e", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,SFiles,Imports,Export,Standard,Module,Error"}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		die("go list %v: %v\n%s", args, err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var ps []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list decode: %v", err)
		}
		ps = append(ps, &p)
	}
	return ps
}

// std packages that are rewritten too, because their internals interleave.
var stdCopies = []string{"bufio", "container/list", "database/sql"}

type override struct{ pkg, name string }

var pkgAlias = map[string]string{} // sim package -> alias

func ov(m map[string]map[string]override, path, sim string, names ...string) {
	if m[path] == nil {
		m[path] = map[string]override{}
	}
	for _, n := range names {
		nn := n
		if i := strings.Index(n, "="); i >= 0 {
			n, nn = n[:i], n[i+1:]
		}
		m[path][n] = override{sim, nn}
	}
}

var overrides = func() map[string]map[string]override {
	m := map[string]map[string]override{}
	ov(m, "sync", "ssync", "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Pool", "Map", "Locker", "OnceFunc", "OnceValue", "OnceValues")
	var at []string
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		at = append(at, t)
		for _, f := range []string{"Load", "Store", "Swap", "CompareAndSwap", "Add", "And", "Or"} {
			at = append(at, f+t)
		}
	}
	at = append(at, "Bool", "Pointer", "Value", "LoadPointer", "StorePointer", "CompareAndSwapPointer", "SwapPointer")
	ov(m, "sync/atomic", "satomic", at...)
	ov(m, "time", "stime", "Now", "Since", "Until", "Sleep", "After", "Tick", "NewTimer", "AfterFunc", "NewTicker", "Timer", "Ticker")
	ov(m, "context", "sctx", "WithCancel", "WithCancelCause", "WithTimeout", "WithTimeoutCause", "WithDeadline", "WithDeadlineCause", "AfterFunc", "WithoutCancel", "Cause")
	ov(m, "os", "sos", "File", "OpenFile", "Open", "Create", "Stdin", "Stdout", "Stderr", "Stat", "Lstat", "Remove", "RemoveAll", "Rename", "Truncate", "MkdirAll", "Mkdir", "MkdirTemp", "CreateTemp", "ReadFile", "WriteFile", "Getenv", "LookupEnv", "Setenv", "Getpid", "Exit", "TempDir", "Hostname", "Getwd")
	ov(m, "net/http", "shttp", "ListenAndServe=ListenAndServeAddr")
	ov(m, "net", "shttp", "Listen")
	ov(m, "log", "slog", "Print", "Println", "Printf", "Fatal", "Fatalln", "Fatalf", "Panic", "Panicf", "SetFlags", "SetPrefix", "SetOutput")
	ov(m, "fmt", "sfmt", "Print", "Println", "Printf")
	ov(m, "math/rand", "srand", "Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float64", "Float32", "Perm", "Shuffle", "NormFloat64", "ExpFloat64", "Seed", "Read")
	ov(m, "math/rand/v2", "srandv2", "Int", "IntN", "Int64", "Int64N", "Int32N", "Uint32", "Uint64", "Uint64N", "Uint32N", "UintN", "Float64", "Perm", "Shuffle", "N")
	ov(m, "crypto/rand", "scrand", "Read", "Reader", "Text")
	ov(m, "os/signal", "ssignal", "Notify", "Stop", "Ignore", "Reset", "NotifyContext")
	ov(m, "runtime", "sruntime", "GOMAXPROCS", "NumCPU", "NumGoroutine", "Gosched")
	return m
}()

var methodOverrides = map[string]override{
	"(*net/http.Server).ListenAndServe":     {"shttp", "ListenAndServe"},
	"(*net/http.Server).Shutdown":           {"shttp", "Shutdown"},
	"(*net/http.Server).Close":              {"shttp", "Close"},
	"(*net/http.Server).Serve":              {"shttp", "Serve"},
	"(*net/http.Server).RegisterOnShutdown": {"shttp", "RegisterOnShutdown"},
}

// symbols that would escape the simulation
var forbidden = map[string]map[string]bool{
	"net/http": {"Get": true, "Post": true, "PostForm": true, "Head": true, "DefaultClient": true, "ListenAndServeTLS": true, "Serve": true},
	"net":      {"Dial": true, "DialTimeout": true},
	"os/exec":  {"Command": true, "CommandContext": true},
	"os":       {"StartProcess": true, "Pipe": true},
}

var linknames = map[string]override{
	"runtime.procPin":        {"sruntime", "ProcPin"},
	"runtime.procUnpin":      {"sruntime", "ProcUnpin"},
	"sync.runtime_procPin":   {"sruntime", "ProcPin"},
	"sync.runtime_procUnpin": {"sruntime", "ProcUnpin"},
}

func main() {
	if len(os.Args) < 4 {
		die("usage: instr SRC OUT patterns...")
	}
	src, out := os.Args[1], os.Args[2]
	all := goList(src, append([]string{"-deps"}, os.Args[3:]...)...)
	var mod []*listPkg
	ext := map[string]bool{}
	for _, p := range all {
		if p.Module != nil && p.Module.Main {
			if len(p.GoFiles) == 0 {
				continue
			}
			if p.Error != nil {
				die("%s: %s", p.ImportPath, p.Error.Err)
			}
			if len(p.CgoFiles) > 0 {
				die("%s uses cgo", p.ImportPath)
			}
			mod = append(mod, p)
		} else if p.ImportPath != "unsafe" && p.ImportPath != "C" {
			ext[p.ImportPath] = true
		}
	}
	goroot := strings.TrimSpace(goEnv("GOROOT"))
	var stds []*listPkg
	for _, s := range stdCopies {
		for _, p := range goList(src, s) {
			stds = append(stds, p)
			for _, i := range p.Imports {
				if i != "unsafe" {
					ext[i] = true
				}
			}
		}
	}
	_ = goroot
	var extl []string
	for e := range ext {
		extl = append(extl, e)
	}
	sort.Strings(extl)
	exports := map[string]string{}
	for _, p := range goList(src, append([]string{"-export", "-deps"}, extl...)...) {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := &imprt{local: map[string]*types.Package{}}
	imp.gc = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}).(types.ImporterFrom)
	var order []string
	for _, p := range mod { // -deps lists dependencies first
		tp := process(fset, imp, p, out, p.ImportPath, p.Name == "main")
		imp.local[p.ImportPath] = tp
		order = append(order, p.ImportPath)
	}
	for _, p := range stds {
		process(fset, imp, p, out, "vsa/zsim/zstd/"+p.ImportPath, false)
	}
	b, _ := json.Marshal(order)
	os.WriteFile(filepath.Join(out, "zsim_order.json"), b, 0o644)
}

func goEnv(k string) string {
	b, err := exec.Command("go", "env", k).Output()
	if err != nil {
		die("go env: %v", err)
	}
	return string(b)
}

type imprt struct {
	local map[string]*types.Package
	gc    types.ImporterFrom
}

func (i *imprt) Import(p string) (*types.Package, error) { return i.ImportFrom(p, "", 0) }
func (i *imprt) ImportFrom(p, dir string, m types.ImportMode) (*types.Package, error) {
	if t := i.local[p]; t != nil {
		return t, nil
	}
	return i.gc.ImportFrom(p, dir, m)
}

// ---------------------------------------------------------------------------

type rw struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	used map[string]bool // sim packages used in this file
	n    int
	fn   []ast.Node // enclosing function nodes
}

func process(fset *token.FileSet, imp *imprt, p *listPkg, out, newPath string, isMain bool) *types.Package {
	var files []*ast.File
	links := map[string]string{}
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		srcb, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		for _, l := range strings.Split(string(srcb), "\n") {
			if strings.HasPrefix(l, "//go:linkname ") {
				fs := strings.Fields(l)
				if len(fs) == 3 {
					links[fs[1]] = fs[2]
				}
			}
			if strings.HasPrefix(l, "//go:embed ") {
				die("%s: go:embed unsupported", fn)
			}
		}
		af, err := parser.ParseFile(fset, fn, srcb, parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	var terrs []string
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", runtime.GOARCH), FakeImportC: true,
		Error: func(e error) {
			if te, ok := e.(types.Error); ok && te.Soft {
				return
			}
			terrs = append(terrs, e.Error())
		}}
	tp, _ := conf.Check(p.ImportPath, fset, files, info)
	if len(terrs) > 0 && !strings.HasPrefix(newPath, "vsa/zsim/zstd") {
		die("type errors in %s: %s", p.ImportPath, strings.Join(terrs[:min(3, len(terrs))], "; "))
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(newPath, "vsa"), "/")
	dir := filepath.Join(out, rel)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	// what to re-run at reset, in initialisation order
	type resetItem struct {
		file int
		code string
	}
	initIdx := map[ast.Expr]int{}
	for i, in := range info.InitOrder {
		initIdx[in.Rhs] = i
	}
	nInit := len(info.InitOrder)
	seq := make([]string, 0)
	fnNames := make([]string, nInit)
	cints, cdurs := literals(files, info)
	var zero, inits []string
	for fi, af := range files {
		r := &rw{fset: fset, info: info, pkg: tp, used: map[string]bool{}}
		name := af.Name.Name
		if isMain {
			name = "simmain"
		}
		_ = seq
		// remember rhs exprs before rewriting
		type pend struct {
			names []string
			spec  *ast.ValueSpec
			vi    int
			ord   int
		}
		var pends []pend
		type zp struct {
			name string
			spec *ast.ValueSpec
		}
		var zs []zp
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							zs = append(zs, zp{n.Name, vs})
						}
					}
					continue
				}
				for vi, v := range vs.Values {
					ord, ok := initIdx[v]
					if !ok {
						continue
					}
					var names []string
					if len(vs.Values) == 1 {
						for _, n := range vs.Names {
							names = append(names, n.Name)
						}
					} else {
						names = []string{vs.Names[vi].Name}
					}
					allBlank := true
					for _, n := range names {
						if n != "_" {
							allBlank = false
						}
					}
					if allBlank {
						continue
					}
					pends = append(pends, pend{names, vs, vi, ord})
				}
			}
		}
		// linknamed, bodyless functions
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body != nil {
				continue
			}
			o, ok := linknames[links[fd.Name.Name]]
			if !ok {
				if strings.HasPrefix(newPath, "vsa/zsim/zstd") {
					die("std func %s without body", fd.Name.Name)
				}
				die("%s.%s: function without body (linkname %q) is not simulated", p.ImportPath, fd.Name.Name, links[fd.Name.Name])
			}
			call := &ast.CallExpr{Fun: r.sim(o.pkg, o.name)}
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
			} else {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
			}
			fd.Recv = nil
		}
		synth := map[*ast.FuncDecl]bool{}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if fd.Recv == nil && fd.Name.Name == "init" {
					nm := fmt.Sprintf("zsimInit%d_%d", fi, len(inits))
					fd.Name = ast.NewIdent(nm)
					inits = append(inits, nm)
				}
				if isMain && fd.Recv == nil && fd.Name.Name == "main" {
					fd.Name = ast.NewIdent("SimMain")
				}
			}
		}
		_ = synth
		r.file(af)
		af.Name = ast.NewIdent(name)
		// reset functions
		var tail bytes.Buffer
		for _, pd := range pends {
			nm := fmt.Sprintf("zsimReset%d_%d", fi, pd.ord)
			fnNames[pd.ord] = nm
			fmt.Fprintf(&tail, "\nfunc %s() { %s = %s }\n", nm, strings.Join(pd.names, ", "), r.src(pd.spec.Values[pd.vi]))
		}
		for i, z := range zs {
			nm := fmt.Sprintf("zsimZero%d_%d", fi, i)
			zero = append(zero, nm)
			fmt.Fprintf(&tail, "\nfunc %s() { %s = *new(%s) }\n", nm, z.name, r.src(z.spec.Type))
		}
		r.fixImports(af)
		var buf bytes.Buffer
		buf.WriteString("// Code generated from " + filepath.Base(fset.Position(af.Pos()).Filename) + " for simulation. DO NOT EDIT.\n\n")
		if err := format.Node(&buf, token.NewFileSet(), af); err != nil {
			die("print %s: %v", p.GoFiles[fi], err)
		}
		buf.Write(tail.Bytes())
		if err := os.WriteFile(filepath.Join(dir, p.GoFiles[fi]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
		if fi == len(files)-1 {
			var g bytes.Buffer
			fmt.Fprintf(&g, "package %s\n\nimport zrt \"vsa/zsim/rt\"\n\nfunc init() {\n\tzrt.RegisterReset(%q, func() {\n", name, newPath)
			for _, z := range zero {
				fmt.Fprintf(&g, "\t\t%s()\n", z)
			}
			for _, f := range fnNames {
				if f != "" {
					fmt.Fprintf(&g, "\t\t%s()\n", f)
				}
			}
			for _, f := range inits {
				fmt.Fprintf(&g, "\t\t%s()\n", f)
			}
			g.WriteString("\t})\n")
			if !strings.HasPrefix(newPath, "vsa/zsim/zstd") {
				fmt.Fprintf(&g, "\tzrt.RegisterConsts(%q, %s, %s)\n", newPath, cints, cdurs)
			}
			g.WriteString("}\n")
			if err := os.WriteFile(filepath.Join(dir, "zsim_reset.go"), g.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	return tp
}

// literals lists the integer and duration constants a package uses. They steer the
// generators towards sizes and delays at which the code may behave differently.
func literals(files []*ast.File, info *types.Info) (ints, durs string) {
	is, ds := map[int64]bool{}, map[int64]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			tv, ok := info.Types[e]
			if !ok || tv.Value == nil {
				return true
			}
			v, exact := constant.Int64Val(constant.ToInt(tv.Value))
			if constant.ToInt(tv.Value).Kind() != constant.Int || !exact {
				return true
			}
			if nt, ok := tv.Type.(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Name() == "Duration" {
				if v >= 1000 && v <= 10_000_000_000 {
					ds[v] = true
				}
				return false
			}
			if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v >= 3 && v <= 10000 {
				is[v] = true
			}
			return true
		})
	}
	list := func(m map[int64]bool) string {
		l := make([]int64, 0, len(m))
		for v := range m {
			l = append(l, v)
		}
		slices.Sort(l)
		return strings.ReplaceAll(strings.Trim(fmt.Sprint(l), "[]"), " ", ", ")
	}
	return "[]int64{" + list(is) + "}", "[]int64{" + list(ds) + "}"
}

func (r *rw) src(n any) string {
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), n); err != nil {
		die("print expr: %v", err)
	}
	return b.String()
}

func alias(sim string) string { return "z" + sim }

func (r *rw) sim(sim, name string) ast.Expr {
	r.used[sim] = true
	return &ast.SelectorExpr{X: ast.NewIdent(alias(sim)), Sel: ast.NewIdent(name)}
}

func (r *rw) rt(name string) ast.Expr { return r.sim("rt", name) }

func (r *rw) rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

// sites numbers the yield points of the whole build.
var sites int

func (r *rw) yield() ast.Stmt {
	sites++
	return &ast.ExprStmt{X: r.rtCall("YA", &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(sites)})}
}

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s__%d", p, r.n))
}

func (r *rw) fixImports(f *ast.File) {
	usedPkg := map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := r.info.Uses[id].(*types.PkgName); ok {
				usedPkg[o] = true
			}
		}
		return true
	})
	std := map[string]bool{}
	for _, s := range stdCopies {
		std[s] = true
	}
	var specs []ast.Spec
	var decls []ast.Decl
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			var obj types.Object
			if is.Name != nil {
				if is.Name.Name == "_" {
					if path == "unsafe" || path == "embed" {
						continue
					}
					specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("_"), Path: lit(path)})
					continue
				}
				if is.Name.Name == "." {
					die("dot import of %s is not supported", path)
				}
				obj = r.info.Defs[is.Name]
			} else {
				obj = r.info.Implicits[is]
			}
			if obj == nil || !usedPkg[obj] {
				continue
			}
			np := path
			if std[path] {
				np = "vsa/zsim/zstd/" + path
			}
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(obj.Name()), Path: lit(np)})
		}
	}
	var used []string
	for u := range r.used {
		used = append(used, u)
	}
	sort.Strings(used)
	for _, u := range used {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(alias(u)), Path: lit("vsa/zsim/" + u)})
	}
	var out []ast.Decl
	for _, s := range specs {
		out = append(out, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	f.Decls = append(out, decls...)
	f.Imports = nil
	f.Comments = nil
}

func lit(s string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func (r *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv != nil {
				r.fields(d.Recv)
			}
			r.expr(d.Type)
			if d.Body != nil {
				r.fn = append(r.fn, d)
				d.Body.List = r.stmts(d.Body.List)
				r.fn = r.fn[:0]
			}
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok != token.IMPORT {
				r.genDecl(d)
			}
		}
	}
}

func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			s.Type = r.expr(s.Type)
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if c := r.recv2(s.Values[0]); c != nil {
					s.Values[0] = c
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			if s.TypeParams != nil {
				r.fields(s.TypeParams)
			}
			s.Type = r.expr(s.Type)
		}
	}
}

func (r *rw) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.expr(f.Type)
	}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) typ(e ast.Expr) types.Type { return r.info.Types[e].Type }

func (r *rw) isMap(e ast.Expr) bool  { _, ok := under(r.typ(e)).(*types.Map); return ok }
func (r *rw) isChan(e ast.Expr) bool { _, ok := under(r.typ(e)).(*types.Chan); return ok }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) builtin(e ast.Expr) string {
	if id, ok := unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) recv2(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.rtCall("Recv2", r.expr(u.X))
	}
	return nil
}

func isNilExpr(e ast.Expr) bool {
	v := reflect.ValueOf(e)
	return e == nil || (v.Kind() == reflect.Ptr && v.IsNil())
}

func (r *rw) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if isNilExpr(e) {
		return e
	}
	switch e := e.(type) {
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if o, ok := overrides[path][e.Sel.Name]; ok {
					return r.sim(o.pkg, o.name)
				}
				if forbidden[path][e.Sel.Name] {
					die("%s.%s would escape the simulation", path, e.Sel.Name)
				}
				return e
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.CallExpr:
		return r.call(e)
	case *ast.FuncLit:
		r.expr(e.Type)
		r.fn = append(r.fn, e)
		e.Body.List = r.stmts(e.Body.List)
		r.fn = r.fn[:len(r.fn)-1]
		return e
	case *ast.CompositeLit:
		e.Type = r.expr(e.Type)
		r.exprs(e.Elts)
		return e
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
		return e
	case *ast.IndexExpr:
		m := r.isMap(e.X)
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
		if m {
			e.X = r.rtCall("MR", e.X)
		}
		return e
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.rtCall("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low = r.expr(e.Low)
		e.High = r.expr(e.High)
		e.Max = r.expr(e.Max)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		e.Type = r.expr(e.Type)
		return e
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.ArrayType:
		e.Len = r.expr(e.Len)
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	case *ast.MapType:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.FuncType:
		r.fields(e.TypeParams)
		r.fields(e.Params)
		r.fields(e.Results)
		return e
	case *ast.StructType:
		r.fields(e.Fields)
		return e
	case *ast.InterfaceType:
		r.fields(e.Methods)
		return e
	}
	return e
}

func (r *rw) call(e *ast.CallExpr) ast.Expr {
	switch r.builtin(e.Fun) {
	case "close":
		return r.rtCall("Close", r.expr(e.Args[0]))
	case "len":
		if r.isChan(e.Args[0]) {
			return r.rtCall("LenChan", r.expr(e.Args[0]))
		}
		if r.isMap(e.Args[0]) {
			e.Args[0] = r.rtCall("MR", r.expr(e.Args[0]))
			return e
		}
	case "delete", "clear":
		if r.isMap(e.Args[0]) {
			r.exprs(e.Args)
			e.Args[0] = r.rtCall("MW", e.Args[0])
			return e
		}
	case "recover":
		return r.rtCall("Recover", e)
	}
	if sel, ok := unparen(e.Fun).(*ast.SelectorExpr); ok {
		if s := r.info.Selections[sel]; s != nil {
			if fn, ok := s.Obj().(*types.Func); ok {
				if o, ok := methodOverrides[fn.FullName()]; ok {
					recv := r.expr(sel.X)
					if _, isPtr := r.typ(sel.X).(*types.Pointer); !isPtr {
						recv = &ast.UnaryExpr{Op: token.AND, X: recv}
					}
					r.exprs(e.Args)
					return &ast.CallExpr{Fun: r.sim(o.pkg, o.name), Args: append([]ast.Expr{recv}, e.Args...), Ellipsis: e.Ellipsis}
				}
			}
		}
	}
	e.Fun = r.expr(e.Fun)
	r.exprs(e.Args)
	return e
}

// ---- statements -------------------------------------------------------------

func (r *rw) stmts(list []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		switch x := s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.DeclStmt:
			if gd, ok := x.Decl.(*ast.GenDecl); !ok || gd.Tok == token.VAR {
				out = append(out, r.yield())
			}
		default:
			out = append(out, r.yield())
		}
		out = append(out, r.stmt(s, true))
	}
	return out
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

// shared reports whether lhs designates memory another goroutine may see.
func (r *rw) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		if e.Name == "_" {
			return false
		}
		o, ok := r.info.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		if o.Parent() == r.pkg.Scope() {
			return true
		}
		if len(r.fn) > 0 {
			f := r.fn[len(r.fn)-1]
			if o.Pos() < f.Pos() || o.Pos() > f.End() {
				return true
			}
		}
		return false
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s != nil {
			if s.Indirect() {
				return true
			}
			if _, ok := under(r.typ(e.X)).(*types.Pointer); ok {
				return true
			}
			return r.shared(e.X)
		}
		return true // package-level of another package
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch under(r.typ(e.X)).(type) {
		case *types.Map:
			return false
		case *types.Array:
			return r.shared(e.X)
		}
		return true
	}
	return false
}

// plain: no calls (other than builtins and conversions), receives or closures.
func (r *rw) plain(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.CallExpr:
			if r.builtin(x.Fun) == "" && !r.info.Types[x.Fun].IsType() {
				ok = false
			}
		}
		return ok
	})
	return ok
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
	token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func define(name *ast.Ident, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

// rmw splits lhs = *lhs op rhs into load, yield, store.
func (r *rw) rmw(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	p, t := r.tmp("p"), r.tmp("t")
	return &ast.BlockStmt{List: []ast.Stmt{
		define(p, &ast.UnaryExpr{Op: token.AND, X: lhs}),
		define(t, &ast.StarExpr{X: ast.NewIdent(p.Name)}),
		r.yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: ast.NewIdent(p.Name)}}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(t.Name), Op: op, Y: &ast.ParenExpr{X: rhs}}}},
	}}
}

func (r *rw) lhs(e ast.Expr) ast.Expr {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		ix.X = r.rtCall("MW", r.expr(ix.X))
		ix.Index = r.expr(ix.Index)
		return ix
	}
	return r.expr(e)
}

// stmt rewrites one statement into exactly one statement. full is false for
// the init/post clauses of compound statements.
func (r *rw) stmt(s ast.Stmt, full bool) ast.Stmt {
	if s == nil || reflect.ValueOf(s).IsNil() {
		return s
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rtCall("SendTo", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if full && r.shared(s.X) {
			return r.rmw(r.expr(s.X), op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		s.X = r.lhs(s.X)
	case *ast.AssignStmt:
		return r.assign(s, full)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		c := r.call(s.Call)
		cc, ok := c.(*ast.CallExpr)
		if !ok {
			die("defer rewrite")
		}
		s.Call = cc
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt, full)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init, false)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else, true)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init, false)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post, false)
		r.block(s.Body)
		s.Body.List = append([]ast.Stmt{r.yield()}, s.Body.List...)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init, false)
		s.Tag = r.expr(s.Tag)
		r.cases(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init, false)
		s.Assign = r.stmt(s.Assign, false)
		r.cases(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(gd)
		}
	}
	return s
}

func (r *rw) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *rw) assign(s *ast.AssignStmt, full bool) ast.Stmt {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if c := r.recv2(s.Rhs[0]); c != nil {
			s.Rhs[0] = c
			for i := range s.Lhs {
				s.Lhs[i] = r.lhs(s.Lhs[i])
			}
			return s
		}
	}
	if op, ok := opOf[s.Tok]; ok {
		if full && r.shared(s.Lhs[0]) {
			rhs := r.expr(s.Rhs[0])
			return r.rmw(r.expr(s.Lhs[0]), op, rhs)
		}
		s.Lhs[0] = r.lhs(s.Lhs[0])
		s.Rhs[0] = r.expr(s.Rhs[0])
		return s
	}
	if s.Tok == token.ASSIGN && full && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.shared(s.Lhs[0]) && r.plain(s.Rhs[0]) && r.plain(s.Lhs[0]) {
		lt, rv := r.typ(s.Lhs[0]), r.info.Types[s.Rhs[0]]
		_, isLit := unparen(s.Rhs[0]).(*ast.BasicLit)
		_, isCL := unparen(s.Rhs[0]).(*ast.CompositeLit)
		if lt != nil && rv.Type != nil && rv.Value == nil && !rv.IsNil() && !isLit && !isCL && types.Identical(lt, rv.Type) {
			t := r.tmp("t")
			rhs := r.expr(s.Rhs[0])
			lhs := r.lhs(s.Lhs[0])
			return &ast.BlockStmt{List: []ast.Stmt{
				define(t, rhs), r.yield(),
				&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}}}}
		}
	}
	r.exprs(s.Rhs)
	for i := range s.Lhs {
		s.Lhs[i] = r.lhs(s.Lhs[i])
	}
	return s
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.rtCall("Go", r.expr(fl))}
	}
	bi := r.builtin(c.Fun) != ""
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		consts[i] = tv.Value != nil || tv.IsNil() || tv.IsType()
	}
	nc := r.call(c).(*ast.CallExpr)
	var pre []ast.Stmt
	if !bi && nc == c {
		if sel, ok := unparen(nc.Fun).(*ast.SelectorExpr); !ok || r.info.Selections[sel] != nil {
			if id, ok := unparen(nc.Fun).(*ast.Ident); !ok || id == nil {
				f := r.tmp("f")
				pre = append(pre, define(f, nc.Fun))
				nc.Fun = ast.NewIdent(f.Name)
			}
		}
	}
	if nc == c {
		for i := range nc.Args {
			if consts[i] {
				continue
			}
			a := r.tmp("a")
			pre = append(pre, define(a, nc.Args[i]))
			nc.Args[i] = ast.NewIdent(a.Name)
		}
	}
	g := &ast.ExprStmt{X: r.rtCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.rtCall("BlockForever")}, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{lit("unreachable")}}}}}
	}
	var lhs, rhs, args []ast.Expr
	hasDef := "false"
	var clauses []ast.Stmt
	idx := 0
	var def *ast.CaseClause
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			def = &ast.CaseClause{Body: r.stmts(cc.Body)}
			continue
		}
		id := r.tmp("c")
		var pre []ast.Stmt
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			lhs = append(lhs, ast.NewIdent(id.Name))
			rhs = append(rhs, &ast.CallExpr{Fun: r.rtCall("CaseSend", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}})
		case *ast.ExprStmt:
			u := unparen(x.X).(*ast.UnaryExpr)
			lhs = append(lhs, ast.NewIdent(id.Name))
			rhs = append(rhs, r.rtCall("CaseRecv", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(x.Rhs[0]).(*ast.UnaryExpr)
			lhs = append(lhs, ast.NewIdent(id.Name))
			rhs = append(rhs, r.rtCall("CaseRecv", r.expr(u.X)))
			as := &ast.AssignStmt{Tok: x.Tok}
			as.Lhs = append(as.Lhs, r.lhs(x.Lhs[0]))
			as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("V")})
			if len(x.Lhs) > 1 {
				as.Lhs = append(as.Lhs, r.lhs(x.Lhs[1]))
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("OK")})
			}
			pre = append(pre, as)
		}
		args = append(args, ast.NewIdent(id.Name))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(pre, r.stmts(cc.Body)...)})
		idx++
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{lit("unreachable")}}}}}
	}
	clauses = append(clauses, def)
	sw := &ast.SwitchStmt{Tag: r.rtCall("Select", append([]ast.Expr{ast.NewIdent(hasDef)}, args...)...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	isBlank := func(e ast.Expr) bool {
		if isNilExpr(e) {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch under(r.typ(s.X)).(type) {
	case *types.Map:
		x := r.expr(s.X)
		e := r.tmp("e")
		var pre []ast.Stmt
		pre = append(pre, r.yield(), &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(e.Name), Sel: ast.NewIdent("Live")}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !isBlank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Key)}, Tok: s.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(e.Name), Sel: ast.NewIdent("K")}}})
		}
		if !isBlank(s.Value) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Value)}, Tok: s.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(e.Name), Sel: ast.NewIdent("V")}}}})
		}
		body := append(pre, r.stmts(s.Body.List)...)
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(e.Name), Tok: token.DEFINE, X: r.rtCall("MapIter", x), Body: &ast.BlockStmt{List: body}}
	case *types.Chan:
		x := r.expr(s.X)
		c, v, ok := r.tmp("c"), r.tmp("v"), r.tmp("ok")
		var pre []ast.Stmt
		vn := ast.NewIdent("_")
		if !isBlank(s.Key) {
			vn = ast.NewIdent(v.Name)
		}
		pre = append(pre, r.yield(), &ast.AssignStmt{Lhs: []ast.Expr{vn, ast.NewIdent(ok.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rtCall("Recv2", ast.NewIdent(c.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if !isBlank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Key)}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		body := append(pre, r.stmts(s.Body.List)...)
		return &ast.ForStmt{Init: define(c, x), Body: &ast.BlockStmt{List: body}}
	}
	if !isNilExpr(s.Key) {
		s.Key = r.lhs(s.Key)
	}
	if !isNilExpr(s.Value) {
		s.Value = r.lhs(s.Value)
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	s.Body.List = append([]ast.Stmt{r.yield()}, s.Body.List...)
	return s
}
