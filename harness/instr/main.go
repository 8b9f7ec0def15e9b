// Command instr rewrites the sources of Go packages so that their synchronisation and clock go through the
// deterministic scheduler verifharness/vs, and writes an overlay for go build.  It judges nothing: it only
// makes every interleaving of the real code reachable.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

var swap = map[string]string{
	"sync":        "verifharness/shim/vsync",
	"sync/atomic": "verifharness/shim/vatomic",
	"time":        "verifharness/shim/vtime",
	"context":     "verifharness/shim/vcontext",
	"runtime":     "verifharness/shim/vruntime",
}

type listed struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
}

func main() {
	out := flag.String("out", "", "output directory")
	fine := flag.Bool("fine", true, "statement-level switch points")
	prefix := flag.String("prefix", "github.com/unsafe-risk/utilx", "rewrite packages below this path")
	skip := flag.String("skip", "", "comma-separated import paths left alone")
	flag.Parse()
	if err := run(*out, *fine, *prefix, *skip, flag.Args()); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(out string, fine bool, prefix, skip string, pkgs []string) error {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard"}, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	exports := map[string]string{}
	var todo []listed
	dec := json.NewDecoder(bytes.NewReader(b))
	for dec.More() {
		var p listed
		if err := dec.Decode(&p); err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, prefix) && !contains(skip, p.ImportPath) {
			todo = append(todo, p)
		}
	}
	overlay := map[string]string{}
	for _, p := range todo {
		if err := rewritePkg(p, exports, fine, out, overlay); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

func contains(list, s string) bool {
	for _, x := range strings.Split(list, ",") {
		if x == s {
			return true
		}
	}
	return false
}

func rewritePkg(p listed, exports map[string]string, fine bool, out string, overlay map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	for i, a := range files {
		r := &rw{info: info, fine: fine}
		r.file(a)
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), a); err != nil {
			return err
		}
		name := strings.ReplaceAll(p.ImportPath, "/", "_") + "_" + p.GoFiles[i]
		dst := filepath.Join(out, name)
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
	}
	return nil
}

type rw struct {
	info *types.Info
	fine bool
	n    int
}

func (r *rw) name(p string) *ast.Ident { r.n++; return ast.NewIdent("__" + p + strconv.Itoa(r.n)) }

func vsel(s string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent("__vs"), Sel: ast.NewIdent(s)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func method(x ast.Expr, m string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: &ast.ParenExpr{X: x}, Sel: ast.NewIdent(m)}, args...)
}

func (r *rw) file(a *ast.File) {
	for _, d := range a.Decls {
		r.decl(d)
	}
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := swap[path]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(path[strings.LastIndex(path, "/")+1:])
			}
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
			im.EndPos = 0
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("__vs"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifharness/vs"`}}}}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{vsel("Fine")}}}}
	a.Decls = append([]ast.Decl{imp}, append(a.Decls, use)...)
	a.Comments = nil
	a.Doc = nil
}

func (r *rw) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.FuncDecl:
		x.Doc = nil
		r.fields(x.Recv)
		r.ftype(x.Type)
		if x.Body != nil {
			r.block(x.Body)
		}
	case *ast.GenDecl:
		x.Doc = nil
		for _, s := range x.Specs {
			switch y := s.(type) {
			case *ast.ValueSpec:
				y.Doc, y.Comment = nil, nil
				y.Type = r.expr(y.Type)
				r.exprs(y.Values)
			case *ast.TypeSpec:
				y.Doc, y.Comment = nil, nil
				r.fields(y.TypeParams)
				y.Type = r.expr(y.Type)
			case *ast.ImportSpec:
				y.Doc, y.Comment = nil, nil
			}
		}
	}
}

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) ftype(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) chanElem(e ast.Expr) (types.Type, bool) {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil, false
	}
	return c.Elem(), true
}

// ch rewrites an expression that denotes a channel; defined channel types become defined pointer types, which
// have no methods, and are converted.
func (r *rw) ch(e ast.Expr) ast.Expr {
	t := r.info.TypeOf(e)
	e = r.expr(e)
	if t != nil {
		if _, plain := types.Unalias(t).(*types.Chan); !plain {
			return call(vsel("Of"), e)
		}
	}
	return e
}

func (r *rw) builtin(e ast.Expr, name string) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func isNil(e ast.Expr) bool { return e == nil }

func (r *rw) expr(e ast.Expr) ast.Expr {
	if isNil(e) {
		return e
	}
	switch x := e.(type) {
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: vsel("Chan"), Index: r.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return method(r.ch(x.X), "Recv")
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		if r.builtin(x.Fun, "make") && len(x.Args) > 0 {
			if _, ok := r.chanElem(x.Args[0]); ok {
				if ct, ok := x.Args[0].(*ast.ChanType); ok {
					n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
					if len(x.Args) > 1 {
						n = r.expr(x.Args[1])
					}
					return call(&ast.IndexExpr{X: vsel("MakeChan"), Index: r.expr(ct.Value)}, n)
				}
				n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
				if len(x.Args) > 1 {
					n = r.expr(x.Args[1])
				}
				return call(&ast.IndexExpr{X: vsel("MakeOf"), Index: r.expr(x.Args[0])}, n)
			}
		}
		if len(x.Args) == 1 {
			if _, ok := r.chanElem(x.Args[0]); ok {
				for b, m := range map[string]string{"close": "Close", "len": "Len", "cap": "Cap"} {
					if r.builtin(x.Fun, b) {
						return method(r.ch(x.Args[0]), m)
					}
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X, x.Type = r.expr(x.X), r.expr(x.Type)
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		r.exprs(x.Elts)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.FuncLit:
		r.ftype(x.Type)
		r.block(x.Body)
	case *ast.ArrayType:
		x.Len, x.Elt = r.expr(x.Len), r.expr(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.FuncType:
		r.ftype(x)
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	}
	return e
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func fineStmt() ast.Stmt { return &ast.ExprStmt{X: call(vsel("Fine"))} }

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r.fine {
			out = append(out, fineStmt())
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rw) loop(b *ast.BlockStmt) {
	r.block(b)
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: call(vsel("Loop"))}}, b.List...)
}

// pure tells whether evaluating e twice is harmless and whether it may denote shared memory.
func (r *rw) pure(e ast.Expr) (ok, shared bool) {
	switch x := e.(type) {
	case *ast.Ident:
		if o := r.info.Uses[x]; o != nil {
			v, isVar := o.(*types.Var)
			return true, isVar && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		}
		return true, false
	case *ast.BasicLit:
		return true, false
	case *ast.ParenExpr:
		return r.pure(x.X)
	case *ast.SelectorExpr:
		ok, _ := r.pure(x.X)
		return ok, true
	case *ast.StarExpr:
		ok, _ := r.pure(x.X)
		return ok, true
	case *ast.IndexExpr:
		a, _ := r.pure(x.X)
		b, _ := r.pure(x.Index)
		return a && b, true
	case *ast.BinaryExpr:
		a, _ := r.pure(x.X)
		b, _ := r.pure(x.Y)
		return a && b, false
	}
	return false, false
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
	token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func define(id ast.Expr, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func assign(x, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
}

func isRecv(e ast.Expr) (ast.Expr, bool) {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x.X, true
			}
		}
		return nil, false
	}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return s
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok && len(v.Names) == 2 && len(v.Values) == 1 {
					if c, ok := isRecv(v.Values[0]); ok {
						v.Values[0] = method(r.ch(c), "Recv2")
					}
				}
			}
		}
		r.decl(x.Decl)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(r.ch(x.Chan), "Send", r.expr(x.Value))}
	case *ast.IncDecStmt:
		ok, shared := r.pure(x.X)
		x.X = r.expr(x.X)
		if r.fine && ok && shared {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			t := r.name("t")
			return &ast.BlockStmt{List: []ast.Stmt{define(t, x.X), fineStmt(),
				assign(x.X, &ast.BinaryExpr{X: t, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}}
		}
	case *ast.AssignStmt:
		return r.assignStmt(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		e := r.expr(x.Call)
		if c, ok := e.(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if t, ok := r.info.TypeOf(x.Results[0]).(*types.Tuple); ok && t.Len() == 2 {
				if c, ok := isRecv(x.Results[0]); ok {
					x.Results[0] = method(r.ch(c), "Recv2")
					return x
				}
			}
		}
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.plain(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.list(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.plain(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.plain(x.Init)
		x.Assign = r.plain(x.Assign)
		r.clauses(x.Body)
	case *ast.ForStmt:
		x.Init = r.plain(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.plain(x.Post)
		r.loop(x.Body)
	case *ast.RangeStmt:
		if _, ok := r.chanElem(x.X); ok {
			return r.rangeChan(x)
		}
		x.Key, x.Value, x.X = r.expr(x.Key), r.expr(x.Value), r.expr(x.X)
		r.loop(x.Body)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	return s
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for i := range b.List {
		b.List[i] = r.stmt(b.List[i])
	}
}

// plain rewrites a statement that must stay a simple statement.
func (r *rw) plain(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	f := r.fine
	r.fine = false
	s = r.stmt(s)
	r.fine = f
	return s
}

func (r *rw) assignStmt(x *ast.AssignStmt) ast.Stmt {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if c, ok := isRecv(x.Rhs[0]); ok {
			r.exprs(x.Lhs)
			x.Rhs[0] = method(r.ch(c), "Recv2")
			return x
		}
	}
	split := false
	if r.fine && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		ok, shared := r.pure(x.Lhs[0])
		split = ok && shared
	}
	op, isOp := opOf[x.Tok]
	lt := types.Type(nil)
	if split && x.Tok == token.ASSIGN {
		lt = r.info.TypeOf(x.Lhs[0])
		tv := r.info.Types[x.Rhs[0]]
		if tv.Value != nil || tv.IsNil() || tv.Type == nil || lt == nil || !types.Identical(tv.Type, lt) {
			split = false
		}
		if b, ok := lt.(*types.Basic); !ok || b.Kind() == types.UntypedBool {
			if bb, ok2 := lt.Underlying().(*types.Basic); ok2 && !ok && bb.Info()&types.IsBoolean != 0 {
				split = false
			}
		}
	}
	r.exprs(x.Lhs)
	r.exprs(x.Rhs)
	if !split {
		return x
	}
	t := r.name("t")
	switch {
	case x.Tok == token.ASSIGN:
		return &ast.BlockStmt{List: []ast.Stmt{define(t, x.Rhs[0]), fineStmt(), assign(x.Lhs[0], t)}}
	case isOp:
		return &ast.BlockStmt{List: []ast.Stmt{define(t, x.Lhs[0]), fineStmt(),
			assign(x.Lhs[0], &ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}})}}
	}
	return x
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	blk := &ast.BlockStmt{}
	fun := c.Fun
	inline := false
	base := fun
	for {
		switch y := base.(type) {
		case *ast.ParenExpr:
			base = y.X
			continue
		case *ast.IndexExpr:
			base = y.X
			continue
		case *ast.IndexListExpr:
			base = y.X
			continue
		}
		break
	}
	switch y := base.(type) {
	case *ast.FuncLit:
		inline = true
	case *ast.Ident:
		switch r.info.Uses[y].(type) {
		case *types.Func, *types.Builtin:
			inline = true
		}
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				if _, ok := r.info.Uses[y.Sel].(*types.Func); ok {
					inline = true
				}
			}
		}
	}
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		consts[i] = tv.Value != nil || tv.IsNil()
	}
	e := r.expr(c)
	c2, ok := e.(*ast.CallExpr)
	if ok && c2 != c { // a rewritten builtin
		blk.List = append(blk.List, &ast.ExprStmt{X: call(vsel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c2}}}})})
		return blk
	}
	if !inline {
		f := r.name("f")
		blk.List = append(blk.List, define(f, c.Fun))
		c.Fun = f
	}
	for i := range c.Args {
		if consts[i] {
			continue
		}
		a := r.name("a")
		blk.List = append(blk.List, define(a, c.Args[i]))
		c.Args[i] = a
	}
	ell := c.Ellipsis
	inner := &ast.CallExpr{Fun: c.Fun, Args: c.Args, Ellipsis: ell}
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		blk.List = append(blk.List, &ast.ExprStmt{X: call(vsel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	} else {
		blk.List = append(blk.List, &ast.ExprStmt{X: call(vsel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	}
	return blk
}

func (r *rw) rangeChan(x *ast.RangeStmt) ast.Stmt {
	c := r.name("c")
	ok := r.name("ok")
	r.loop(x.Body)
	recv := method(c, "Recv2")
	var head []ast.Stmt
	key := x.Key
	if key == nil {
		key = ast.NewIdent("_")
	}
	if x.Tok == token.ASSIGN {
		head = append(head, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{r.expr(key), ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv}})
	} else {
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
	}
	head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	// the body keeps its own scope, as in a range statement
	return &ast.ForStmt{Init: define(c, r.ch(x.X)), Body: &ast.BlockStmt{List: append(head, x.Body)}}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var ids, vals, args []ast.Expr
	hasDef := "false"
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = "true"
		}
	}
	args = append(args, ast.NewIdent(hasDef))
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		cl := &ast.CaseClause{}
		var head []ast.Stmt
		if cc.Comm == nil {
			cl.Body = r.list(cc.Body)
			sw.Body.List = append(sw.Body.List, cl)
			continue
		}
		id := r.name("s")
		recvHead := func(lhs []ast.Expr, tok token.Token) {
			v := []ast.Expr{method(id, "Value")}
			if len(lhs) == 2 {
				v = append(v, method(id, "OK"))
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: v})
		}
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			ids = append(ids, id)
			vals = append(vals, method(r.ch(y.Chan), "SendCase", r.expr(y.Value)))
		case *ast.ExprStmt:
			ch, _ := isRecv(y.X)
			ids = append(ids, id)
			vals = append(vals, method(r.ch(ch), "RecvCase"))
		case *ast.AssignStmt:
			ch, _ := isRecv(y.Rhs[0])
			ids = append(ids, id)
			vals = append(vals, method(r.ch(ch), "RecvCase"))
			r.exprs(y.Lhs)
			recvHead(y.Lhs, y.Tok)
		}
		args = append(args, id)
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		cl.Body = append(head, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	if hasDef == "false" && len(sw.Body.List) > 0 {
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	if len(ids) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: vals}
	}
	sw.Tag = call(vsel("Select"), args...)
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: call(vsel("Select"), args...)}
	}
	return sw
}
