// Command instr rewrites the library under test so that every synchronisation operation goes through package vs. It
// writes the rewritten files and an overlay file for the go command into a directory; the repository is not touched.
//
// With -fields, accesses to the fields of shared structures and to package variables are scheduling points, too.
//
//	instr [-fields] REPO DIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
	DepOnly    bool
}

const vsPath = "verif/vs"

// replaced maps package path -> name -> name in package vs.
var replaced = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Cond": "Cond", "NewCond": "NewCond",
		"Map": "Map", "Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"sync/atomic": {
		"Int32": "AtomicInt32", "Int64": "AtomicInt64", "Uint32": "AtomicUint32", "Uint64": "AtomicUint64",
		"Uintptr": "AtomicUintptr", "Bool": "AtomicBool", "Pointer": "AtomicPointer", "Value": "AtomicValue",
		"LoadInt32": "AtomicLoadInt32", "LoadInt64": "AtomicLoadInt64", "LoadUint32": "AtomicLoadUint32", "LoadUint64": "AtomicLoadUint64",
		"StoreInt32": "AtomicStoreInt32", "StoreInt64": "AtomicStoreInt64", "StoreUint32": "AtomicStoreUint32", "StoreUint64": "AtomicStoreUint64",
		"AddInt32": "AtomicAddInt32", "AddInt64": "AtomicAddInt64", "AddUint32": "AtomicAddUint32", "AddUint64": "AtomicAddUint64",
		"SwapInt32": "AtomicSwapInt32", "SwapInt64": "AtomicSwapInt64", "SwapUint32": "AtomicSwapUint32", "SwapUint64": "AtomicSwapUint64",
		"CompareAndSwapInt32": "AtomicCompareAndSwapInt32", "CompareAndSwapInt64": "AtomicCompareAndSwapInt64",
		"CompareAndSwapUint32": "AtomicCompareAndSwapUint32", "CompareAndSwapUint64": "AtomicCompareAndSwapUint64",
	},
	"time": {
		"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "NewTicker": "NewTicker", "Timer": "Timer", "Ticker": "Ticker", "Tick": "Tick",
	},
	"context": {
		"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithDeadline": "WithDeadline",
		"WithDeadlineCause": "WithDeadlineCause", "WithTimeout": "WithTimeout", "WithTimeoutCause": "WithTimeoutCause",
		"Cause": "Cause", "AfterFunc": "CtxAfterFunc",
	},
	"runtime": {"Gosched": "Gosched"},
	"math/rand": {
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Int": "RandInt", "Int31": "RandInt31", "Int63": "RandInt63", "Intn": "RandIntn",
		"Int31n": "RandInt31n", "Int63n": "RandInt63n", "Float64": "RandFloat64", "Seed": "RandSeed",
	},
	"math/rand/v2": {
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Int": "RandInt", "Int32": "RandInt31", "Int64": "RandInt63", "IntN": "RandIntn",
		"Int32N": "RandInt31n", "Int64N": "RandInt63n", "Float64": "RandFloat64",
	},
}

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, args...)...)
	os.Exit(3)
}

func main() {
	fields := os.Args[1] == "-fields"
	if fields {
		os.Args = os.Args[1:]
	}
	repo, dir := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-e", "-json", "-deps", "-export", "./...")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	export := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		export[p.ImportPath] = p.Export
		if !p.DepOnly && !p.Standard && p.Name != "main" {
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	inModule := map[string]bool{}
	for _, p := range pkgs {
		inModule[p.ImportPath] = true
	}
	for _, p := range pkgs {
		process(p, export, dir, overlay, fields, inModule)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	n     int
	used  bool
	tries bool
	vs    string

	fields   bool
	inModule map[string]bool
}

func process(p *pkgInfo, export map[string]string, dir string, overlay map[string]string, fields bool, inModule map[string]bool) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, name := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(export[path]) })
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fatal(p.ImportPath, err)
	}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, vs: "vs__", fields: fields, inModule: inModule}
		globals := packageVars(f)
		r.file(f, globals)
		if !r.used {
			continue
		}
		src := filepath.Join(p.Dir, p.GoFiles[i])
		dst := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(src, "/"), "/", "_"))
		w, err := os.Create(dst)
		if err != nil {
			fatal(err)
		}
		if err := format.Node(w, fset, f); err != nil {
			fatal(src, err)
		}
		w.Close()
		overlay[src] = dst
	}
}

func packageVars(f *ast.File) (r []string) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					r = append(r, n.Name)
				}
			}
		}
	}
	return
}

func (r *rewriter) sel(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(r.vs), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(name), Args: args}
}

func (r *rewriter) tmp() *ast.Ident { r.n++; return ast.NewIdent("vs__" + strconv.Itoa(r.n)) }

func (r *rewriter) file(f *ast.File, globals []string) {
	// Comments would be misplaced in the rewritten file, except for directives that precede the package clause.
	f.Comments = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.GenDecl:
			d.Doc = keepDirectives(d.Doc)
		case *ast.FuncDecl:
			d.Doc = keepDirectives(d.Doc)
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.File:
			d.Doc = nil
		}
		return true
	})
	for _, d := range f.Decls {
		r.decl(d)
	}
	if len(globals) > 0 {
		var list []ast.Stmt
		for _, g := range globals {
			list = append(list, &ast.ExprStmt{X: r.call("Global", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(g)})})
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: list}})
	}
	if r.tries {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{r.sel("UnlockPoints")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("true")}}}}})
	}
	if !r.used {
		return
	}
	// imports that are no longer used
	left := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
						left[pn.Imported().Path()] = true
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if !left[path] && (is.Name == nil || (is.Name.Name != "_" && is.Name.Name != ".")) {
				is.Name = ast.NewIdent("_")
			}
		}
	}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
		&ast.ImportSpec{Name: ast.NewIdent(r.vs), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsPath)}}}}}, f.Decls...)
}

func keepDirectives(c *ast.CommentGroup) *ast.CommentGroup { return nil }

func (r *rewriter) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		r.fieldList(d.Recv)
		r.typ(d.Type)
		r.block(d.Body)
	case *ast.GenDecl:
		if d.Tok == token.IMPORT {
			return
		}
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.ValueSpec:
				s.Type = r.expr(s.Type)
				if len(s.Names) == 2 && len(s.Values) == 1 {
					s.Values[0] = r.expr2(s.Values[0])
				} else {
					r.exprs(s.Values)
				}
			case *ast.TypeSpec:
				r.fieldList(s.TypeParams)
				s.Type = r.expr(s.Type)
			}
		}
	}
}

func (r *rewriter) typ(t *ast.FuncType) {
	if t == nil {
		return
	}
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rewriter) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
		// An embedded field keeps the name of its type, which the types of package vs do not have in all cases.
	}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// expr2 rewrites an expression used with two results.
func (r *rewriter) expr2(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.call("Recv2", r.expr(u.X))
	}
	return r.expr(e)
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// isMem reports whether the expression denotes a shared memory location: a field of a structure of the library (its
// packet types excepted) or a package variable.
func (r *rewriter) isMem(e ast.Expr) bool {
	if !r.fields {
		return false
	}
	switch e := e.(type) {
	case *ast.Ident:
		return r.isPackageVar(e)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return r.isPackageVar(e.Sel)
			}
		}
		s := r.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal || !(s.Indirect() || r.isMem(unparen(e.X))) {
			return false
		}
		v := s.Obj()
		return v.Pkg() != nil && r.inModule[v.Pkg().Path()] && !strings.Contains(v.Pkg().Path(), "/packets") && !isSync(v.Type())
	}
	return false
}

func (r *rewriter) isPackageVar(id *ast.Ident) bool {
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || !r.inModule[v.Pkg().Path()] || v.Parent() != v.Pkg().Scope() || isSync(v.Type()) {
		return false
	}
	return v.Type().String() != "error"
}

// isSync reports whether the type is a synchronisation primitive: its operations are scheduling points already.
func isSync(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (r *rewriter) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		if id, isID := e.(*ast.Ident); isID && r.info.Uses[id] != nil {
			_, m := r.info.Uses[id].Type().Underlying().(*types.Map)
			return m
		}
		return false
	}
	_, m := tv.Type.Underlying().(*types.Map)
	return m
}

// loc rewrites the inside of a memory location but not the access itself.
func (r *rewriter) loc(e ast.Expr) ast.Expr {
	e = unparen(e)
	if s, ok := e.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return e
			}
		}
		if x := unparen(s.X); r.isMem(x) && !r.isPointer(x) {
			s.X = r.loc(x)
		} else {
			s.X = r.expr(s.X)
		}
	}
	return e
}

func (r *rewriter) isPointer(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	_, p := tv.Type.Underlying().(*types.Pointer)
	return p
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

// access is an access to a memory location through the scheduler.
func (r *rewriter) access(name string, e ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call(name, addr(r.loc(e)))}}
}

func (r *rewriter) read(e ast.Expr) ast.Expr {
	if r.isMap(e) {
		return r.call("RdMap", addr(r.loc(e)))
	}
	return r.access("Rd", e)
}

// lhs rewrites an expression that is assigned to.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	if r.isMem(unparen(e)) {
		return r.access("Wr", unparen(e))
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.IndexExpr:
		b := unparen(x.X)
		if r.isMem(b) {
			if r.isMap(b) {
				x.X = r.call("WrMap", addr(r.loc(b)))
			} else if tv := r.info.Types[b]; tv.Type != nil {
				if _, arr := tv.Type.Underlying().(*types.Array); arr {
					x.X = r.access("Wr", b)
				} else {
					x.X = r.expr(b)
				}
			}
			x.Index = r.expr(x.Index)
			return x
		}
	}
	return r.expr(e)
}

// assign rewrites an assignment of one value to a memory location so that the value is evaluated before the access.
func (r *rewriter) assign(l ast.Expr, op token.Token, v ast.Expr) ast.Stmt {
	l = unparen(l)
	if r.isMem(l) {
		if op != token.ILLEGAL {
			v = &ast.BinaryExpr{X: r.readAgain(l), Op: op, Y: &ast.ParenExpr{X: v}}
		}
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("St", addr(r.loc(l))), Args: []ast.Expr{v}}}
	}
	if x, ok := l.(*ast.IndexExpr); ok && op == token.ILLEGAL {
		if b := unparen(x.X); r.isMem(b) && r.isMap(b) {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("StMap", addr(r.loc(b))), Args: []ast.Expr{r.expr(x.Index), v}}}
		}
	}
	return nil
}

// readAgain is a read access to a location that is rewritten again by the caller.
func (r *rewriter) readAgain(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		c := &ast.SelectorExpr{X: r.copyLoc(x.X), Sel: x.Sel}
		return &ast.ParenExpr{X: &ast.StarExpr{X: r.call("Rd", addr(c))}}
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call("Rd", addr(e))}}
}

func (r *rewriter) copyLoc(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: r.copyLoc(x.X), Sel: x.Sel}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.copyLoc(x.X)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.copyLoc(x.X)}
	}
	return e
}

// simple reports whether an expression is made of names only, so that evaluating it twice is harmless.
func simple(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr:
		if r.isMem(e) {
			return r.read(e)
		}
	}
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s != nil && s.Kind() == types.MethodVal && r.isMem(unparen(e.X)) {
			// A method with a pointer receiver called on a variable may write it.
			if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
				_, ptr := sig.Recv().Type().Underlying().(*types.Pointer)
				if ptr && !r.isPointer(unparen(e.X)) {
					e.X = r.access("Wr", unparen(e.X))
					return e
				}
			}
		}
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if to, ok := replaced[pn.Imported().Path()][e.Sel.Name]; ok {
					return r.sel(to)
				}
				return e
			}
		}
		if e.Sel.Name == "TryLock" || e.Sel.Name == "TryRLock" {
			r.tries = true
		}
		e.X = r.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		if e.Op == token.AND {
			if x := unparen(e.X); r.isMem(x) {
				e.X = r.loc(x)
				return e
			} else if ix, ok := x.(*ast.IndexExpr); ok && r.isMem(unparen(ix.X)) {
				ix.X, ix.Index = r.access("Wr", unparen(ix.X)), r.expr(ix.Index)
				return e
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.CallExpr:
		if r.isBuiltin(e.Fun, "close") {
			return r.call("Close", r.expr(e.Args[0]))
		}
		if r.isBuiltin(e.Fun, "delete") && r.isMem(unparen(e.Args[0])) {
			return &ast.CallExpr{Fun: r.call("DelMap", addr(r.loc(unparen(e.Args[0])))), Args: []ast.Expr{r.expr(e.Args[1])}}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	case *ast.FuncLit:
		r.typ(e.Type)
		r.block(e.Body)
		return e
	case *ast.CompositeLit:
		e.Type = r.expr(e.Type)
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if _, isIdent := kv.Key.(*ast.Ident); !isIdent {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			e.Elts[i] = r.expr(x)
		}
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
		return e
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		if tv, ok := r.info.Types[e.X]; ok && r.isMem(unparen(e.X)) {
			if _, arr := tv.Type.Underlying().(*types.Array); arr {
				e.X = r.access("Wr", unparen(e.X))
				e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
				return e
			}
		}
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.TypeAssertExpr:
		e.X, e.Type = r.expr(e.X), r.expr(e.Type)
		return e
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value)
		return e
	case *ast.ArrayType:
		e.Len, e.Elt = r.expr(e.Len), r.expr(e.Elt)
		return e
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	case *ast.StructType:
		r.fieldList(e.Fields)
		return e
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
		return e
	case *ast.FuncType:
		r.typ(e)
		return e
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
		return e
	}
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan), r.expr(s.Value)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("Ch", ch), Sel: ast.NewIdent("Send")}, Args: []ast.Expr{v}}}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if r.isBuiltin(s.Call.Fun, "close") {
			s.Call = r.call("Close", r.expr(s.Call.Args[0]))
			return s
		}
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return s
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt)
		return s
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.AssignStmt:
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok != token.DEFINE {
			op, ok := assignOps[s.Tok]
			if s.Tok == token.ASSIGN {
				op, ok = token.ILLEGAL, true
			}
			l := unparen(s.Lhs[0])
			isIndex := false
			if x, isIx := l.(*ast.IndexExpr); isIx {
				isIndex = r.isMem(unparen(x.X)) && r.isMap(unparen(x.X))
			}
			if ok && (r.isMem(l) && (op == token.ILLEGAL || simple(l)) || isIndex && op == token.ILLEGAL) {
				return r.assign(l, op, r.expr(s.Rhs[0]))
			}
		}
		if s.Tok != token.DEFINE {
			for i := range s.Lhs {
				s.Lhs[i] = r.lhs(s.Lhs[i])
			}
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			s.Rhs[0] = r.expr2(s.Rhs[0])
		} else {
			r.exprs(s.Rhs)
		}
		return s
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.IncDecStmt:
		if l := unparen(s.X); r.isMem(l) && simple(l) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return r.assign(l, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		s.X = r.lhs(s.X)
		return s
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return s
	case *ast.BlockStmt:
		r.block(s)
		return s
	case *ast.IfStmt:
		s.Init, s.Cond = r.stmt(s.Init), r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
		return s
	case *ast.ForStmt:
		s.Init, s.Cond, s.Post = r.stmt(s.Init), r.expr(s.Cond), r.stmt(s.Post)
		r.block(s.Body)
		return s
	case *ast.SwitchStmt:
		s.Init, s.Tag = r.stmt(s.Init), r.expr(s.Tag)
		r.block(s.Body)
		return s
	case *ast.TypeSwitchStmt:
		s.Init, s.Assign = r.stmt(s.Init), r.stmt(s.Assign)
		r.block(s.Body)
		return s
	case *ast.CaseClause:
		r.exprs(s.List)
		r.stmts(s.Body)
		return s
	case *ast.DeclStmt:
		r.decl(s.Decl)
		return s
	}
	return s
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
	token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func define(lhs, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			return &ast.ExprStmt{X: r.call("Go", fnLit(&ast.ExprStmt{X: r.expr(c)}))}
		}
	}
	if lit, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.call("Go", r.expr(lit))}
	}
	var list []ast.Stmt
	f := r.tmp()
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args[i] = r.expr(a)
			continue
		}
		t := r.tmp()
		list = append(list, define(t, r.expr(a)))
		args[i] = t
	}
	list = append([]ast.Stmt{define(f, r.expr(c.Fun))}, list...)
	call := &ast.CallExpr{Fun: f, Args: args, Ellipsis: c.Ellipsis}
	list = append(list, &ast.ExprStmt{X: r.call("Go", fnLit(&ast.ExprStmt{X: call}))})
	return &ast.BlockStmt{List: list}
}

func fnLit(s ...ast.Stmt) *ast.FuncLit {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: s}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var list []ast.Stmt
	hasDefault := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var cases []ast.Expr
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		k := r.tmp()
		n := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(cases))}
		cases = append(cases, k)
		var pre []ast.Stmt
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			list = append(list, define(k, &ast.CallExpr{Fun: r.call("SendCase", r.expr(comm.Chan)), Args: []ast.Expr{r.expr(comm.Value)}}))
		case *ast.ExprStmt:
			list = append(list, define(k, r.call("RecvCase", r.expr(unparen(comm.X).(*ast.UnaryExpr).X))))
		case *ast.AssignStmt:
			list = append(list, define(k, r.call("RecvCase", r.expr(unparen(comm.Rhs[0]).(*ast.UnaryExpr).X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: k, Sel: ast.NewIdent("Val")}}
			if len(comm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: k, Sel: ast.NewIdent("Ok")})
			}
			r.exprs(comm.Lhs)
			pre = append(pre, &ast.AssignStmt{Lhs: comm.Lhs, Tok: comm.Tok, Rhs: rhs})
		}
		r.stmts(cc.Body)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{n}, Body: append(pre, cc.Body...)})
	}
	if hasDefault == "false" {
		// A select without default is a terminating statement unless it is left by break; so is this switch.
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(list, last)}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	var under types.Type
	if tv, ok := r.info.Types[s.X]; ok {
		under = tv.Type.Underlying()
	}
	switch under.(type) {
	case *types.Chan:
		ch, v, ok := r.tmp(), r.tmp(), r.tmp()
		x := r.expr(s.X)
		r.block(s.Body)
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		if s.Key != nil {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		}
		return &ast.ForStmt{Init: define(ch, x), Body: &ast.BlockStmt{List: append(body, s.Body)}}
	case *types.Map:
		e := r.tmp()
		x := r.expr(s.X)
		r.block(s.Body)
		body := []ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Live")}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
		isBlank := func(x ast.Expr) bool { id, ok := x.(*ast.Ident); return x == nil || ok && id.Name == "_" }
		if s.Key != nil && !isBlank(s.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: e, Sel: ast.NewIdent("K")}}})
		}
		if s.Value != nil && !isBlank(s.Value) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("V")}}}})
		}
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: r.call("Entries", x), Body: &ast.BlockStmt{List: append(body, s.Body)}}
	}
	s.X = r.expr(s.X)
	if s.Tok != token.DEFINE {
		if s.Key != nil {
			s.Key = r.lhs(s.Key)
		}
		if s.Value != nil {
			s.Value = r.lhs(s.Value)
		}
	}
	r.block(s.Body)
	return s
}
