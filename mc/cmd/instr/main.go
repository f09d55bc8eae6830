// Command instr rewrites Go packages so that they run on the virtual runtime of verif.local/mc/vs.
//
// Usage: instr -src DIR -out DIR -mem PKGPATTERN,... DIR:IMPORTPATH:MODE...
//
// Every listed package directory (relative to -src) is parsed, type-checked against the export data of its
// dependencies and written to -out with goroutines, channel operations, locks, clocks, sockets and (mode mem) memory
// accesses replaced by calls of the virtual runtime.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

// pathMap replaces imports.
var pathMap = map[string]string{
	"sync":                         "verif.local/mc/vsync",
	"sync/atomic":                  "verif.local/mc/vatomic",
	"time":                         "verif.local/mc/vtime",
	"net":                          "verif.local/mc/vnet",
	"context":                      "verif.local/mc/vcontext",
	"os":                           "verif.local/mc/vos",
	"io/ioutil":                    "verif.local/mc/vioutil",
	"github.com/fsnotify/fsnotify": "verif.local/mc/vfsnotify",
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "", "module to instrument")
	out := flag.String("out", "", "output directory")
	envdir := flag.String("env", "", "comma separated DIR=SUBDIR of environment (harness) packages inside -out; instrumented in place")
	flag.Parse()
	if *envdir != "" {
		// harness packages live in the output module already
		for _, d := range strings.Split(*envdir, ",") {
			pkgs := list(*out, "./"+d)
			ld := newLoader(pkgs)
			p := ld.byPath(pkgs, "./"+d, *out)
			ld.rewrite(p, p.Dir, modeEnv)
		}
		return
	}
	args := flag.Args() // import path = mode = output subdirectory
	pkgs := list(*src, "./...")
	ld := newLoader(pkgs)
	for _, p := range pkgs {
		for _, a := range args {
			f := strings.SplitN(a, "=", 3)
			match := p.ImportPath == f[0]
			sub := f[2]
			if strings.HasSuffix(f[0], "/...") {
				pre := strings.TrimSuffix(f[0], "/...")
				if p.ImportPath == pre || strings.HasPrefix(p.ImportPath, pre+"/") {
					match = true
					sub = filepath.Join(sub, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, pre), "/"))
				}
			}
			if match {
				ld.rewrite(p, filepath.Join(*out, sub), map[string]int{"mem": modeMem, "nomem": modeNoMem, "env": modeEnv, "files": modeFiles}[f[1]])
				break
			}
		}
	}
}

func list(dir string, pats ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Error,DepsErrors"}, pats...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		pkgs = append(pkgs, p)
	}
	return pkgs
}

type loader struct {
	fset   *token.FileSet
	export map[string]string
	imp    types.Importer
}

func newLoader(pkgs []*listPkg) *loader {
	ld := &loader{fset: token.NewFileSet(), export: map[string]string{}}
	for _, p := range pkgs {
		if p.Export != "" {
			ld.export[p.ImportPath] = p.Export
		}
	}
	ld.imp = importer.ForCompiler(ld.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := ld.export[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	return ld
}

func (ld *loader) byPath(pkgs []*listPkg, pat, dir string) *listPkg {
	want := filepath.Join(dir, pat)
	want, _ = filepath.EvalSymlinks(want)
	for _, p := range pkgs {
		d, _ := filepath.EvalSymlinks(p.Dir)
		if d == want {
			return p
		}
	}
	fatal("package not found:", pat)
	return nil
}

const (
	modeMem   = iota + 1 // program: everything, with memory accesses
	modeNoMem            // library: no memory accesses
	modeEnv              // harness: goroutines are environment threads
	modeFiles            // library: file access only; everything else runs natively, as one step
)

type rw struct {
	ld     *loader
	pkg    *types.Package
	info   *types.Info
	mode   int
	mem    bool
	shared map[types.Object]bool
	tmp    int
	used   bool
	file   string
	slices bool
}

// copyFiles copies a package, with file access replaced.
func (ld *loader) copyFiles(p *listPkg, out string) {
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(ld.fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if (path == "os" || path == "io/ioutil") && im.Name == nil {
				im.Name = ast.NewIdent(path[strings.LastIndex(path, "/")+1:])
				im.Path.Value = strconv.Quote(pathMap[path])
			}
		}
		f.Comments = nil
		var b bytes.Buffer
		if err := format.Node(&b, ld.fset, f); err != nil {
			fatal(n, err)
		}
		if err := os.WriteFile(filepath.Join(out, n), b.Bytes(), 0o644); err != nil {
			fatal(err)
		}
	}
}

func (ld *loader) rewrite(p *listPkg, out string, mode int) {
	if mode == modeFiles {
		ld.copyFiles(p, out)
		return
	}
	var files []*ast.File
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(ld.fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	var terrs []string
	conf := types.Config{Importer: ld.imp, Error: func(err error) { terrs = append(terrs, err.Error()) }}
	pkg, _ := conf.Check(p.ImportPath, ld.fset, files, info)
	if len(terrs) > 0 {
		fatal("type errors in", p.ImportPath, strings.Join(terrs, "; "))
	}
	r := &rw{ld: ld, pkg: pkg, info: info, mode: mode, mem: mode == modeMem, shared: map[types.Object]bool{}}
	r.slices = !strings.HasSuffix(p.ImportPath, "/pg")
	for _, f := range files {
		r.findShared(f)
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	var resetOrder []string // names of package-level initialisers in order
	initName := map[*types.Initializer]string{}
	initOf := map[ast.Expr]*types.Initializer{}
	for i, in := range info.InitOrder {
		n := fmt.Sprintf("vsInit__%d", i)
		initName[in] = n
		initOf[in.Rhs] = in
	}
	var inits []string
	for i, f := range files {
		r.used = false
		r.file = filepath.Base(p.Dir) + "/" + p.GoFiles[i]
		var extra []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
				if d.Body != nil {
					d.Body = r.block(d.Body)
				}
				if d.Recv == nil && d.Name.Name == "init" && mode != modeEnv {
					n := fmt.Sprintf("vsInitFn__%d", len(inits))
					d.Name = ast.NewIdent(n)
					inits = append(inits, n)
				}
			case *ast.GenDecl:
				d.Doc = nil
				if d.Tok == token.VAR {
					extra = append(extra, r.globals(d, initOf, initName)...)
				} else {
					stripSpecs(d)
				}
			}
		}
		f.Decls = append(f.Decls, extra...)
		f.Doc = nil
		f.Comments = nil
		r.imports(f, mode == modeEnv)
		var b bytes.Buffer
		if err := format.Node(&b, ld.fset, f); err != nil {
			fatal(p.GoFiles[i], err)
		}
		if _, err := parser.ParseFile(token.NewFileSet(), p.GoFiles[i], b.Bytes(), 0); err != nil {
			os.Stderr.Write(b.Bytes())
			fatal("output does not parse:", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(out, p.GoFiles[i]), b.Bytes(), 0o644); err != nil {
			fatal(err)
		}
	}
	if mode == modeEnv {
		return
	}
	// package state is restored before each execution
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport vs__ \"verif.local/mc/vs\"\n\nfunc init() {\n", pkg.Name())
	for _, n := range inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("\tvs__.OnReset(func() {\n")
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok && n != "_" {
			_ = v
			fmt.Fprintf(&b, "\t\tvs__.Zero(&%s)\n", n)
		}
	}
	for _, in := range info.InitOrder {
		resetOrder = append(resetOrder, initName[in])
	}
	for _, n := range resetOrder {
		fmt.Fprintf(&b, "\t\t%s()\n", n)
	}
	for _, n := range inits {
		fmt.Fprintf(&b, "\t\t%s()\n", n)
	}
	b.WriteString("\t})\n}\n")
	if err := os.WriteFile(filepath.Join(out, "zz_vs_reset.go"), b.Bytes(), 0o644); err != nil {
		fatal(err)
	}
}

func stripSpecs(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			ast.Inspect(s, func(n ast.Node) bool {
				if f, ok := n.(*ast.Field); ok {
					f.Doc, f.Comment = nil, nil
				}
				return true
			})
		case *ast.ImportSpec:
			s.Doc, s.Comment = nil, nil
		}
	}
}

// globals rewrites package-level variables; each initialiser also becomes a function.
func (r *rw) globals(d *ast.GenDecl, initOf map[ast.Expr]*types.Initializer, name map[*types.Initializer]string) []ast.Decl {
	var extra []ast.Decl
	for _, s := range d.Specs {
		vs := s.(*ast.ValueSpec)
		vs.Doc, vs.Comment = nil, nil
		for i, v := range vs.Values {
			in := initOf[v]
			if in == nil {
				continue
			}
			var lhs []ast.Expr
			for _, o := range in.Lhs {
				lhs = append(lhs, ast.NewIdent(o.Name()))
			}
			if len(lhs) == 0 {
				lhs = []ast.Expr{ast.NewIdent("_")}
			}
			val := r.expr(v)
			vs.Values[i] = val
			st := ast.Stmt(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
			allBlank := true
			for _, l := range lhs {
				if l.(*ast.Ident).Name != "_" {
					allBlank = false
				}
			}
			body := []ast.Stmt{st}
			if allBlank {
				body = nil
			}
			if r.mode != modeEnv {
				extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent(name[in]), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
			}
		}
	}
	return extra
}

func (r *rw) imports(f *ast.File, env bool) {
	for _, s := range f.Imports {
		s.Doc, s.Comment = nil, nil
		p, _ := strconv.Unquote(s.Path.Value)
		if n, ok := pathMap[p]; ok {
			if s.Name == nil {
				base := p[strings.LastIndex(p, "/")+1:]
				s.Name = ast.NewIdent(base)
			}
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(n)}
			s.EndPos = 0
		} else if p == "runtime" {
			// only Gosched is virtual; see call()
			_ = p
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vs__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/mc/vs"`}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
}

// ---- analysis

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// findShared finds local variables that closures capture or whose address is taken.
func (r *rw) findShared(f *ast.File) {
	var stack []*ast.FuncLit
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			stack = append(stack, n)
			ast.Inspect(n.Type, walk)
			ast.Inspect(n.Body, walk)
			stack = stack[:len(stack)-1]
			return false
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if id := rootIdent(n.X); id != nil {
					if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() {
						if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
							r.shared[v] = true
						}
					}
				}
			}
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && !v.IsField() && len(stack) > 0 && v.Pkg() == r.pkg && v.Parent() != r.pkg.Scope() {
				in := stack[len(stack)-1]
				if v.Pos() < in.Pos() || v.Pos() > in.End() {
					r.shared[v] = true
				}
			}
		}
		return true
	}
	ast.Inspect(f, walk)
}

func isVsType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rw) isPtr(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// tracked tells whether the variable is one whose accesses are recorded.
func (r *rw) trackedVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || !r.mem || isVsType(v.Type()) {
		return false
	}
	if v.IsField() {
		return true
	}
	if v.Pkg() == nil || v.Name() == "_" {
		return false
	}
	if v.Parent() == v.Pkg().Scope() {
		return v.Pkg() == r.pkg || strings.HasPrefix(v.Pkg().Path(), strings.SplitN(r.pkg.Path(), "/pkg/", 2)[0]+"/")
	}
	return r.shared[v]
}

// addressable tells whether &e is legal.
func (r *rw) addressable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(e.X)
	case *ast.Ident:
		_, ok := r.info.Uses[e].(*types.Var)
		if !ok {
			_, ok = r.info.Defs[e].(*types.Var)
		}
		return ok
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil {
			_, ok := r.info.Uses[e.Sel].(*types.Var)
			return ok
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		return r.isPtr(e.X) || r.addressable(e.X)
	case *ast.IndexExpr:
		switch t := under(r.typeOf(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return r.addressable(e.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// tracks tells whether an access to e (an lvalue) is recorded.
func (r *rw) tracks(e ast.Expr) bool {
	if !r.mem {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.tracks(e.X)
	case *ast.Ident:
		o := r.info.Uses[e]
		return o != nil && r.trackedVar(o)
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil {
			o := r.info.Uses[e.Sel]
			return o != nil && r.trackedVar(o)
		}
		return sel.Kind() == types.FieldVal && r.trackedVar(sel.Obj()) && r.addressable(e)
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e]; ok && isVsType(tv.Type) {
			return false
		}
		return r.slices && r.addressable(e)
	case *ast.StarExpr:
		if tv, ok := r.info.Types[e]; ok && (tv.IsType() || isVsType(tv.Type)) {
			return false
		}
		return true
	}
	return false
}

// ---- construction

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) vs(n string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: id("vs__"), Sel: id(n)}
}

func (r *rw) site(n ast.Node) ast.Expr {
	p := r.ld.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", r.file, p.Line))}
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func (r *rw) fresh() *ast.Ident {
	r.tmp++
	return id(fmt.Sprintf("vs__t%d", r.tmp))
}

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func paren(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: e} }

func (r *rw) read(n ast.Node, lv ast.Expr) ast.Expr {
	return paren(&ast.StarExpr{X: call(r.vs("R"), &ast.UnaryExpr{Op: token.AND, X: lv}, r.site(n))})
}

func (r *rw) write(n ast.Node, lv ast.Expr) ast.Expr {
	return &ast.StarExpr{X: call(r.vs("W"), &ast.UnaryExpr{Op: token.AND, X: lv}, r.site(n))}
}

// ---- expressions

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	var o []ast.Expr
	for _, e := range l {
		o = append(o, r.expr(e))
	}
	return o
}

// expr rewrites an expression whose value is used.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		if r.tracks(x) {
			return r.read(x, x)
		}
		return e
	case *ast.FuncLit:
		return &ast.FuncLit{Type: x.Type, Body: r.block(x.Body)}
	case *ast.CompositeLit:
		n := &ast.CompositeLit{Type: x.Type}
		t := r.typeOf(x)
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		_, isStruct := under(t).(*types.Struct)
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = r.expr(k)
				}
				n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: r.expr(kv.Value)})
			} else {
				n.Elts = append(n.Elts, r.expr(el))
			}
		}
		return n
	case *ast.ParenExpr:
		return paren(r.expr(x.X))
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil || sel.Kind() == types.MethodExpr {
			if r.tracks(x) {
				return r.read(x, x)
			}
			return e
		}
		if sel.Kind() == types.MethodVal {
			return &ast.SelectorExpr{X: r.recv(x.X, sel), Sel: x.Sel}
		}
		lv := r.lvalue(x)
		if r.tracks(x) {
			return r.read(x, lv)
		}
		return lv
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[x.Index]; ok && tv.IsType() {
			return e // instantiation
		}
		if _, ok := under(r.typeOf(x.X)).(*types.Map); ok {
			return &ast.IndexExpr{X: r.mapRead(x, x.X), Index: r.expr(x.Index)}
		}
		lv := r.lvalue(x)
		if r.tracks(x) {
			return r.read(x, lv)
		}
		return lv
	case *ast.IndexListExpr:
		return e
	case *ast.SliceExpr:
		n := *x
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
			n.X = r.lvalue(x.X)
		} else {
			n.X = r.expr(x.X)
		}
		n.Low, n.High, n.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return &n
	case *ast.StarExpr:
		if r.tracks(x) {
			return paren(&ast.StarExpr{X: call(r.vs("R"), r.expr(x.X), r.site(x))})
		}
		return &ast.StarExpr{X: r.expr(x.X)}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Type: x.Type}
	case *ast.CallExpr:
		return r.call(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
			}
			return &ast.UnaryExpr{Op: x.Op, X: r.lvalue(x.X)}
		case token.ARROW:
			return call(r.vs("Recv"), r.expr(x.X), r.site(x))
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: r.expr(x.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: r.expr(x.Key), Value: r.expr(x.Value)}
	}
	return e
}

// recv rewrites the receiver of a method value or call.
func (r *rw) recv(e ast.Expr, sel *types.Selection) ast.Expr {
	if f, ok := sel.Obj().(*types.Func); ok {
		if rv := f.Type().(*types.Signature).Recv(); rv != nil {
			_, ptr := rv.Type().Underlying().(*types.Pointer)
			if ptr && !r.isPtr(e) {
				return r.lvalue(e)
			}
		}
	}
	return r.expr(e)
}

// lvalue rewrites an expression without recording an access to the operand itself.
func (r *rw) lvalue(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		return paren(r.lvalue(x.X))
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return x
		}
		if sel.Kind() == types.FieldVal {
			if r.isPtr(x.X) || !r.addressable(x.X) {
				return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
			}
			return &ast.SelectorExpr{X: r.lvalue(x.X), Sel: x.Sel}
		}
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Array:
			if r.addressable(x.X) {
				return &ast.IndexExpr{X: r.lvalue(x.X), Index: r.expr(x.Index)}
			}
		}
		return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(x.X)}
	}
	return r.expr(e)
}

func (r *rw) mapRead(n ast.Node, m ast.Expr) ast.Expr {
	e := r.expr(m)
	if !r.mem {
		return e
	}
	return call(r.vs("MR"), e, r.site(n))
}

func (r *rw) isPkgFunc(e ast.Expr, pkg, name string) bool {
	s, ok := unparen(e).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	f, ok := r.info.Uses[s.Sel].(*types.Func)
	return ok && f.Pkg() != nil && f.Pkg().Path() == pkg && f.Name() == name
}

func (r *rw) builtin(e ast.Expr) string {
	if i, ok := unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) call(x *ast.CallExpr) *ast.CallExpr {
	n := &ast.CallExpr{Fun: x.Fun, Ellipsis: x.Ellipsis}
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() {
		n.Args = r.exprs(x.Args)
		return n
	}
	switch r.builtin(x.Fun) {
	case "close":
		return call(r.vs("Close"), r.expr(x.Args[0]), r.site(x))
	case "len", "cap":
		switch under(r.typeOf(x.Args[0])).(type) {
		case *types.Chan:
			if r.builtin(x.Fun) == "len" {
				return call(r.vs("Len"), r.expr(x.Args[0]))
			}
		case *types.Map:
			n.Args = []ast.Expr{r.mapRead(x, x.Args[0])}
			return n
		case *types.Array, *types.Pointer:
			return x
		}
		n.Args = r.exprs(x.Args)
		return n
	case "delete":
		m := r.expr(x.Args[0])
		if r.mem {
			m = call(r.vs("MD"), m, r.site(x))
		}
		n.Args = []ast.Expr{m, r.expr(x.Args[1])}
		return n
	case "new", "make":
		n.Args = append([]ast.Expr{x.Args[0]}, r.exprs(x.Args[1:])...)
		return n
	case "":
	default:
		n.Args = r.exprs(x.Args)
		return n
	}
	if r.isPkgFunc(x.Fun, "runtime", "Gosched") {
		return call(r.vs("Yield"), r.site(x))
	}
	n.Fun = r.expr(x.Fun)
	if _, ok := n.Fun.(*ast.FuncLit); ok {
		n.Fun = paren(n.Fun)
	}
	n.Args = r.exprs(x.Args)
	return n
}

// quiet tells whether evaluating e involves no call or receive.
func (r *rw) quiet(e ast.Expr) bool {
	q := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; ok && tv.IsType() {
				return true
			}
			switch r.builtin(n.Fun) {
			case "len", "cap", "append", "copy", "make", "new", "min", "max":
				if b := r.builtin(n.Fun); b == "len" || b == "cap" {
					if _, ok := under(r.typeOf(n.Args[0])).(*types.Chan); ok {
						q = false
					}
				}
				return true
			}
			q = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				q = false
			}
		}
		return q
	})
	return q
}

// ---- statements

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		o = append(o, r.stmt(s)...)
	}
	return o
}

func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

// simple rewrites a statement in a position that takes a single simple statement; pre has to run before.
func (r *rw) simple(s ast.Stmt) (pre []ast.Stmt, st ast.Stmt) {
	if s == nil {
		return nil, nil
	}
	l := r.stmt(s)
	if len(l) == 1 {
		switch l[0].(type) {
		case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
			return nil, l[0]
		}
	}
	return l, nil
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.EmptyStmt, *ast.BranchStmt, *ast.BadStmt:
		return []ast.Stmt{s}
	case *ast.ExprStmt:
		if u, ok := unparen(x.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return []ast.Stmt{&ast.ExprStmt{X: call(r.vs("Recv"), r.expr(u.X), r.site(u))}}
		}
		return []ast.Stmt{&ast.ExprStmt{X: r.expr(x.X)}}
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: call(call(r.vs("SendTo"), r.expr(x.Chan), r.site(x)), r.expr(x.Value))}}
	case *ast.IncDecStmt:
		return []ast.Stmt{&ast.IncDecStmt{X: r.target(x.X), Tok: x.Tok}}
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		return []ast.Stmt{&ast.DeferStmt{Call: r.call(x.Call)}}
	case *ast.ReturnStmt:
		if len(x.Results) == 2 || len(x.Results) == 1 {
			// return <-ch is fine; there is no comma-ok form here
		}
		return []ast.Stmt{&ast.ReturnStmt{Results: r.exprs(x.Results)}}
	case *ast.BlockStmt:
		return []ast.Stmt{r.block(x)}
	case *ast.IfStmt:
		pre, init := r.simple(x.Init)
		n := &ast.IfStmt{Init: init, Cond: r.expr(x.Cond), Body: r.block(x.Body)}
		if x.Else != nil {
			e := one(r.stmt(x.Else))
			switch e.(type) {
			case *ast.IfStmt, *ast.BlockStmt:
			default:
				e = &ast.BlockStmt{List: []ast.Stmt{e}}
			}
			n.Else = e
		}
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
		}
		return []ast.Stmt{n}
	case *ast.CaseClause:
		return []ast.Stmt{&ast.CaseClause{List: r.exprs(x.List), Body: r.stmts(x.Body)}}
	case *ast.SwitchStmt:
		pre, init := r.simple(x.Init)
		n := &ast.SwitchStmt{Init: init, Tag: r.expr(x.Tag), Body: r.block(x.Body)}
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
		}
		return []ast.Stmt{n}
	case *ast.TypeSwitchStmt:
		pre, init := r.simple(x.Init)
		n := &ast.TypeSwitchStmt{Init: init, Body: &ast.BlockStmt{}}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: r.expr(ta.X)}}}
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			n.Assign = &ast.ExprStmt{X: &ast.TypeAssertExpr{X: r.expr(ta.X)}}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: cc.List, Body: r.stmts(cc.Body)})
		}
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
		}
		return []ast.Stmt{n}
	case *ast.SelectStmt:
		pre, sw := r.selectStmt(x)
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, sw)}}
	case *ast.ForStmt:
		pre, init := r.simple(x.Init)
		n := &ast.ForStmt{Init: init, Cond: r.expr(x.Cond), Body: r.block(x.Body)}
		if x.Post != nil {
			ppre, post := r.simple(x.Post)
			if ppre != nil {
				post = &ast.ExprStmt{X: call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: ppre}})}
			}
			n.Post = post
		}
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
		}
		return []ast.Stmt{n}
	case *ast.RangeStmt:
		pre, n := r.rangeStmt(x)
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
		}
		return []ast.Stmt{n}
	case *ast.LabeledStmt:
		var pre []ast.Stmt
		var st ast.Stmt
		switch y := x.Stmt.(type) {
		case *ast.SelectStmt:
			pre, st = r.selectStmt(y)
		case *ast.RangeStmt:
			pre, st = r.rangeStmt(y)
		default:
			l := r.stmt(x.Stmt)
			if b, ok := one(l).(*ast.BlockStmt); ok && len(b.List) > 0 {
				if _, was := x.Stmt.(*ast.BlockStmt); !was {
					k := len(b.List) - 1
					return []ast.Stmt{&ast.BlockStmt{List: append(b.List[:k:k], &ast.LabeledStmt{Label: x.Label, Stmt: b.List[k]})}}
				}
			}
			return []ast.Stmt{&ast.LabeledStmt{Label: x.Label, Stmt: one(l)}}
		}
		n := &ast.LabeledStmt{Label: x.Label, Stmt: st}
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
		}
		return []ast.Stmt{n}
	case *ast.DeclStmt:
		g := x.Decl.(*ast.GenDecl)
		if g.Tok == token.VAR {
			n := &ast.GenDecl{Tok: token.VAR, Lparen: g.Lparen, Rparen: g.Rparen}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				m := &ast.ValueSpec{Names: v.Names, Type: v.Type}
				if len(v.Names) == 2 && len(v.Values) == 1 {
					if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						m.Values = []ast.Expr{call(r.vs("Recv2"), r.expr(u.X), r.site(u))}
						n.Specs = append(n.Specs, m)
						continue
					}
				}
				m.Values = r.exprs(v.Values)
				n.Specs = append(n.Specs, m)
			}
			return []ast.Stmt{&ast.DeclStmt{Decl: n}}
		}
		stripSpecs(g)
		return []ast.Stmt{s}
	}
	fatal(fmt.Sprintf("unhandled statement %T at %v", s, r.ld.fset.Position(s.Pos())))
	return nil
}

// target rewrites the left-hand side of an assignment, recording the write.
func (r *rw) target(e ast.Expr) ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.target(p.X)
	}
	if x, ok := e.(*ast.IndexExpr); ok {
		if _, ok := under(r.typeOf(x.X)).(*types.Map); ok {
			m := r.expr(x.X)
			k := r.expr(x.Index)
			if r.mem && r.quiet(x.X) {
				k = call(r.vs("MW"), r.lvalue(x.X), k, r.site(x))
			}
			return &ast.IndexExpr{X: m, Index: k}
		}
	}
	if s, ok := e.(*ast.StarExpr); ok && r.tracks(e) {
		return &ast.StarExpr{X: call(r.vs("W"), r.expr(s.X), r.site(e))}
	}
	if r.tracks(e) {
		return r.write(e, r.lvalue(e))
	}
	return r.lvalue(e)
}

func (r *rw) needsTarget(e ast.Expr) bool {
	e = unparen(e)
	if i, ok := e.(*ast.Ident); ok && i.Name == "_" {
		return false
	}
	if x, ok := e.(*ast.IndexExpr); ok {
		if _, ok := under(r.typeOf(x.X)).(*types.Map); ok {
			return r.mem
		}
	}
	return r.tracks(e)
}

func (r *rw) rhs(lhs, rhs []ast.Expr) []ast.Expr {
	if len(lhs) == 2 && len(rhs) == 1 {
		if u, ok := unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return []ast.Expr{call(r.vs("Recv2"), r.expr(u.X), r.site(u))}
		}
	}
	return r.exprs(rhs)
}

func (r *rw) assign(x *ast.AssignStmt) []ast.Stmt {
	if x.Tok == token.DEFINE {
		out := []ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: r.rhs(x.Lhs, x.Rhs)}}
		for _, l := range x.Lhs {
			if i, ok := l.(*ast.Ident); ok && r.info.Defs[i] == nil && r.tracks(i) {
				out = append(out, &ast.ExprStmt{X: call(r.vs("W"), &ast.UnaryExpr{Op: token.AND, X: i}, r.site(i))})
			}
		}
		return out
	}
	any := false
	for _, l := range x.Lhs {
		if r.needsTarget(l) {
			any = true
		}
	}
	loud := false
	for _, e := range x.Rhs {
		if !r.quiet(e) {
			loud = true
		}
	}
	if !any || !loud {
		n := &ast.AssignStmt{Tok: x.Tok, Rhs: r.rhs(x.Lhs, x.Rhs)}
		for _, l := range x.Lhs {
			if any {
				n.Lhs = append(n.Lhs, r.target(l))
			} else {
				n.Lhs = append(n.Lhs, r.lvalueOrMap(l))
			}
		}
		return []ast.Stmt{n}
	}
	// evaluate the right-hand side before the write is recorded (but after calls within the left-hand side)
	var pre []ast.Stmt
	var vals []ast.Expr
	var lhs []ast.Expr
	for _, l := range x.Lhs {
		l = unparen(l)
		if r.quiet(l) || !r.needsTarget(l) {
			lhs = append(lhs, nil)
			continue
		}
		if ix, ok := l.(*ast.IndexExpr); ok {
			if _, ok := under(r.typeOf(ix.X)).(*types.Map); ok {
				m, k := r.fresh(), r.fresh()
				pre = append(pre, define([]ast.Expr{m}, r.expr(ix.X)), define([]ast.Expr{k}, r.expr(ix.Index)))
				lhs = append(lhs, &ast.IndexExpr{X: m, Index: call(r.vs("MW"), m, k, r.site(ix))})
				continue
			}
		}
		t := r.fresh()
		if st, ok := l.(*ast.StarExpr); ok {
			pre = append(pre, define([]ast.Expr{t}, r.expr(st.X)))
		} else {
			pre = append(pre, define([]ast.Expr{t}, &ast.UnaryExpr{Op: token.AND, X: r.lvalue(l)}))
		}
		lhs = append(lhs, &ast.StarExpr{X: call(r.vs("W"), t, r.site(l))})
	}
	target := func(i int) ast.Expr {
		if lhs[i] != nil {
			return lhs[i]
		}
		return r.target(x.Lhs[i])
	}
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		var ts []ast.Expr
		named := false
		for _, l := range x.Lhs {
			if i, ok := l.(*ast.Ident); ok && i.Name == "_" {
				ts = append(ts, id("_"))
				continue
			}
			named = true
			ts = append(ts, r.fresh())
		}
		if !named {
			return []ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: r.rhs(x.Lhs, x.Rhs)}}
		}
		pre = append(pre, define(ts, r.rhs(x.Lhs, x.Rhs)...))
		n := &ast.AssignStmt{Tok: token.ASSIGN}
		for i := range x.Lhs {
			if t := ts[i].(*ast.Ident); t.Name != "_" {
				n.Lhs = append(n.Lhs, target(i))
				n.Rhs = append(n.Rhs, t)
			}
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
	}
	for _, e := range x.Rhs {
		v := r.expr(e)
		if !r.quiet(e) {
			tv := r.info.Types[e]
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				vals = append(vals, v)
				continue
			}
			t := r.fresh()
			pre = append(pre, define([]ast.Expr{t}, v))
			v = t
		}
		vals = append(vals, v)
	}
	n := &ast.AssignStmt{Tok: x.Tok, Rhs: vals}
	for i := range x.Lhs {
		n.Lhs = append(n.Lhs, target(i))
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, n)}}
}

func (r *rw) lvalueOrMap(e ast.Expr) ast.Expr {
	if x, ok := unparen(e).(*ast.IndexExpr); ok {
		if _, ok := under(r.typeOf(x.X)).(*types.Map); ok {
			return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
		}
	}
	return r.lvalue(e)
}

func (r *rw) isNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsNil()
}

func (r *rw) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	goFn := "Go"
	if r.mode == modeEnv {
		goFn = "GoEnv"
	}
	spawn := func(f ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: call(r.vs(goFn), r.site(x), f)}
	}
	void := func(body ...ast.Stmt) *ast.FuncLit {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	}
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		return []ast.Stmt{spawn(r.expr(fl))}
	}
	var pre []ast.Stmt
	if r.builtin(c.Fun) != "" {
		n := r.call(c)
		for i, a := range n.Args {
			if i < len(c.Args) && (r.isNil(c.Args[i]) || r.info.Types[c.Args[i]].Value != nil || r.info.Types[c.Args[i]].IsType()) {
				continue
			}
			if _, ok := a.(*ast.BasicLit); ok {
				continue
			}
			t := r.fresh()
			pre = append(pre, define([]ast.Expr{t}, a))
			n.Args[i] = t
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, spawn(void(&ast.ExprStmt{X: n})))}}
	}
	fun := r.expr(c.Fun)
	static := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		_, static = r.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if r.info.Selections[f] == nil {
			_, static = r.info.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true
	}
	if !static {
		t := r.fresh()
		pre = append(pre, define([]ast.Expr{t}, fun))
		fun = t
	}
	n := &ast.CallExpr{Fun: fun, Ellipsis: c.Ellipsis}
	if len(c.Args) == 1 {
		if tup, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok {
			var ts []ast.Expr
			for i := 0; i < tup.Len(); i++ {
				ts = append(ts, r.fresh())
			}
			pre = append(pre, define(ts, r.expr(c.Args[0])))
			n.Args = ts
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, spawn(void(&ast.ExprStmt{X: n})))}}
		}
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.IsNil() || tv.Value != nil {
			n.Args = append(n.Args, a)
			continue
		}
		t := r.fresh()
		pre = append(pre, define([]ast.Expr{t}, r.expr(a)))
		n.Args = append(n.Args, t)
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, spawn(void(&ast.ExprStmt{X: n})))}}
}

func (r *rw) selectStmt(x *ast.SelectStmt) (pre []ast.Stmt, sw ast.Stmt) {
	if len(x.Body.List) == 0 {
		return nil, &ast.ExprStmt{X: call(r.vs("BlockForever"))}
	}
	hasDef := "false"
	args := []ast.Expr{r.site(x), nil}
	body := &ast.BlockStmt{}
	k := 0
	var def *ast.CaseClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			def = &ast.CaseClause{Body: r.stmts(cc.Body)}
			continue
		}
		v := r.fresh()
		var head []ast.Stmt
		var rx ast.Expr
		switch st := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define([]ast.Expr{v}, call(call(r.vs("SendCase"), r.expr(st.Chan)), r.expr(st.Value))))
		case *ast.ExprStmt:
			rx = unparen(st.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			rx = unparen(st.Rhs[0]).(*ast.UnaryExpr).X
			vals := []ast.Expr{&ast.SelectorExpr{X: v, Sel: id("Val")}}
			if len(st.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: v, Sel: id("OK")})
			}
			n := &ast.AssignStmt{Tok: st.Tok, Rhs: vals}
			blank := true
			for _, l := range st.Lhs {
				if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
					blank = false
				}
				if st.Tok == token.DEFINE {
					n.Lhs = append(n.Lhs, l)
				} else {
					n.Lhs = append(n.Lhs, r.target(l))
				}
			}
			if blank {
				n.Tok = token.ASSIGN
			}
			head = append(head, n)
		}
		if rx != nil {
			pre = append(pre, define([]ast.Expr{v}, call(r.vs("RecvCase"), r.expr(rx))))
		}
		args = append(args, v)
		body.List = append(body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}},
			Body: append(head, r.stmts(cc.Body)...),
		})
		k++
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vs: unreachable"`})}}}
	}
	body.List = append(body.List, def)
	args[1] = id(hasDef)
	return pre, &ast.SwitchStmt{Tag: call(r.vs("Select"), args...), Body: body}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) (pre []ast.Stmt, st ast.Stmt) {
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch under(r.typeOf(x.X)).(type) {
	case *types.Chan:
		it := r.fresh()
		n := &ast.ForStmt{Body: r.block(x.Body)}
		next := func(a ast.Expr) ast.Expr { return call(&ast.SelectorExpr{X: it, Sel: id("Next")}, a) }
		switch {
		case blank(x.Key):
			n.Init = define([]ast.Expr{it}, call(r.vs("ChanIter"), r.expr(x.X), r.site(x)))
			n.Cond = next(id("nil"))
		case x.Tok == token.DEFINE:
			n.Init = define([]ast.Expr{it, x.Key}, call(r.vs("ChanIter2"), r.expr(x.X), r.site(x)))
			n.Cond = next(&ast.UnaryExpr{Op: token.AND, X: x.Key})
		default:
			n.Init = define([]ast.Expr{it}, call(r.vs("ChanIter"), r.expr(x.X), r.site(x)))
			n.Cond = next(&ast.UnaryExpr{Op: token.AND, X: r.lvalue(x.Key)})
		}
		return nil, n
	case *types.Map:
		if r.mode != modeMem {
			break
		}
		m := r.fresh()
		k := r.fresh()
		pre = append(pre, define([]ast.Expr{m}, r.expr(x.X)))
		n := &ast.RangeStmt{Key: id("_"), Value: k, Tok: token.DEFINE, X: call(r.vs("Keys"), m, r.site(x))}
		var head []ast.Stmt
		val := r.fresh()
		ok := r.fresh()
		var vv ast.Expr = val
		if blank(x.Value) {
			vv = id("_")
		}
		head = append(head, define([]ast.Expr{vv, ok}, &ast.IndexExpr{X: call(r.vs("MR"), m, r.site(x)), Index: k}))
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if x.Tok == token.DEFINE && (!blank(x.Key) || !blank(x.Value)) {
			// one variable per loop, as the language version of the program has it
			kv := []ast.Expr{id("_"), id("_")}
			if !blank(x.Key) {
				kv[0] = x.Key
			}
			if !blank(x.Value) {
				kv[1] = x.Value
			}
			pre = append(pre, define(kv, call(r.vs("ZeroKV"), m)))
		}
		if !blank(x.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.target(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{k}})
		}
		if !blank(x.Value) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.target(x.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
		}
		n.Body = &ast.BlockStmt{List: append(head, r.block(x.Body).List...)}
		return pre, n
	}
	n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok, Body: r.block(x.Body)}
	if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
		n.X = r.lvalue(x.X)
	} else {
		n.X = r.expr(x.X)
	}
	return nil, n
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
