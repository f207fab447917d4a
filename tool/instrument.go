package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

// Levels of instrumentation; lower levels are fallbacks for code the higher ones cannot handle.
const (
	levelSplit  = 2 // scheduling points inside read-modify-write statements
	levelYield  = 1 // scheduling points between statements
	levelBlocks = 0 // only goroutines, channels and the shimmed packages
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Name       string
	Module     *struct{ Path, Dir string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

// instrument rewrites in place every package of the modules rooted at the given directories;
// the first is the main module, where go list runs.
func instrument(level int, roots []string) error {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Standard,Name,Module,ImportMap,Error", "./...")
	cmd.Dir = roots[0]
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	var pkgs []*pkgInfo
	byPath := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}
	fset := token.NewFileSet()
	checked := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	for _, p := range pkgs {
		inScope := false
		for _, r := range roots {
			if p.Dir == r || strings.HasPrefix(p.Dir, r+string(filepath.Separator)) {
				inScope = true
			}
		}
		if !inScope || p.Standard {
			continue
		}
		p.GoFiles = append(p.GoFiles, p.CgoFiles...)
		if len(p.GoFiles) == 0 {
			continue
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			dropUnusedC(af)
			files = append(files, af)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: importFunc(func(path string) (*types.Package, error) {
			if m := p.ImportMap[path]; m != "" {
				path = m
			}
			if path == "unsafe" {
				return types.Unsafe, nil
			}
			if c := checked[path]; c != nil {
				return c, nil
			}
			return gc.Import(path)
		}), FakeImportC: true, GoVersion: "go1.21"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return fmt.Errorf("type checking %s: %v", p.ImportPath, err)
		}
		checked[p.ImportPath] = tp
		if err := rewritePackage(level, fset, p, tp, files, info); err != nil {
			return err
		}
	}
	return nil
}

// dropUnusedC removes an import of "C" that nothing uses.
func dropUnusedC(f *ast.File) {
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "C" {
				used = true
			}
		}
		return true
	})
	if used {
		return
	}
	isC := func(s ast.Spec) bool { i, ok := s.(*ast.ImportSpec); return ok && i.Path.Value == `"C"` }
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			var specs []ast.Spec
			for _, s := range g.Specs {
				if !isC(s) {
					specs = append(specs, s)
				}
			}
			if g.Specs = specs; len(specs) == 0 {
				continue
			}
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	var ims []*ast.ImportSpec
	for _, s := range f.Imports {
		if !isC(s) {
			ims = append(ims, s)
		}
	}
	f.Imports = ims
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(p string) (*types.Package, error) { return f(p) }

type rw struct {
	level  int
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	recv2  map[ast.Expr]bool
	n      int
	fnBody []ast.Node // enclosing function nodes
}

func rewritePackage(level int, fset *token.FileSet, p *pkgInfo, tp *types.Package, files []*ast.File, info *types.Info) error {
	isShim := map[string]bool{}
	for _, s := range shimmed {
		isShim[s] = true
	}
	type where struct {
		spec *ast.ValueSpec
		ix   int
		file int
	}
	loc := map[types.Object]where{}
	var zero, order []string // calls, in order
	appendix := make([]strings.Builder, len(files))
	for fi, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if o := info.Defs[n]; o != nil {
						loc[o] = where{vs, i, fi}
					}
				}
			}
		}
	}
	r := &rw{level: level, fset: fset, info: info, pkg: tp, recv2: map[ast.Expr]bool{}}
	for fi, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				name := fmt.Sprintf("vsimInit_%d_%d__", fi, r.uid())
				fd.Name = ast.NewIdent(name)
				fmt.Fprintf(&appendix[fi], "\nfunc init() { %s() }\n", name)
				order = append(order, name)
			}
		}
		r.walk(reflect.ValueOf(f))
	}
	inits := order
	order = nil
	text := func(n ast.Node) (string, error) {
		var b bytes.Buffer
		err := (&printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}).Fprint(&b, token.NewFileSet(), n)
		return b.String(), err
	}
	for fi, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				t, err := text(vs.Type)
				if err != nil {
					return err
				}
				name := fmt.Sprintf("vsimZero_%d_%d__", fi, r.uid())
				fmt.Fprintf(&appendix[fi], "\nfunc %s() {\n\tvar z__ %s\n\t_ = z__\n", name, t)
				for _, n := range vs.Names {
					if n.Name != "_" {
						fmt.Fprintf(&appendix[fi], "\t%s = z__\n", n.Name)
					}
				}
				appendix[fi].WriteString("}\n")
				zero = append(zero, name)
			}
		}
	}
	for _, in := range info.InitOrder {
		w, ok := loc[in.Lhs[0]]
		if !ok {
			continue
		}
		ix := w.ix
		if len(in.Lhs) > 1 {
			ix = 0
		}
		if ix >= len(w.spec.Values) {
			continue
		}
		rhs, err := text(w.spec.Values[ix])
		if err != nil {
			return err
		}
		var lhs []string
		blank := true
		if len(in.Lhs) > 1 {
			for _, n := range w.spec.Names {
				lhs = append(lhs, n.Name)
				blank = blank && n.Name == "_"
			}
		} else {
			lhs = []string{w.spec.Names[w.ix].Name}
			blank = lhs[0] == "_"
		}
		if blank {
			continue
		}
		name := fmt.Sprintf("vsimVar_%d_%d__", w.file, r.uid())
		fmt.Fprintf(&appendix[w.file], "\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), rhs)
		order = append(order, name)
	}
	for fi, f := range files {
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if isShim[path] {
				im.Path.Value = strconv.Quote("verifsim/shim/" + path)
				im.EndPos = token.NoPos
			}
		}
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
			return err
		}
		src := b.String()
		// the package clause is first: no comments were kept
		nl := strings.Index(src, "\n")
		if nl < 0 {
			nl = len(src)
			src += "\n"
		}
		src = src[:nl+1] + "\nimport vsim__ \"verifsim/vsim\"\n" + src[nl+1:] + "\nvar _ = vsim__.Y\n"
		src += appendix[fi].String()
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[fi]), []byte(src), 0644); err != nil {
			return err
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport vsim__ \"verifsim/vsim\"\n\nfunc init() {\n\tvsim__.RegisterInit(%q, func() {\n", p.Name, p.ImportPath)
	for _, l := range [][]string{zero, order, inits} {
		for _, n := range l {
			fmt.Fprintf(&b, "\t\t%s()\n", n)
		}
	}
	b.WriteString("\t})\n}\n")
	return os.WriteFile(filepath.Join(p.Dir, "vsim_reinit__.go"), []byte(b.String()), 0644)
}

func (r *rw) uid() int { r.n++; return r.n }

var (
	exprType  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	declType  = reflect.TypeOf((*ast.Decl)(nil)).Elem()
	specType  = reflect.TypeOf((*ast.Spec)(nil)).Elem()
	nodeType  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	stmtsType = reflect.TypeOf([]ast.Stmt(nil))
)

// walk rewrites everything below v, children first.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		r.pre(v.Interface())
		if sel, ok := v.Interface().(*ast.SelectStmt); ok {
			r.walkSelect(sel)
			return
		}
		fn := false
		switch v.Interface().(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			fn = true
			r.fnBody = append(r.fnBody, v.Interface().(ast.Node))
		}
		r.walkStruct(v.Elem())
		if fn {
			r.fnBody = r.fnBody[:len(r.fnBody)-1]
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Struct:
		r.walkStruct(v)
	}
}

func (r *rw) walkStruct(v reflect.Value) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		ft := f.Type()
		switch {
		case ft == reflect.TypeOf((*ast.Object)(nil)), ft == reflect.TypeOf((*ast.Scope)(nil)), t.Field(i).Name == "Imports", t.Field(i).Name == "Unresolved", t.Field(i).Name == "Comments":
			continue
		case ft == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.doExpr(f.Interface().(ast.Expr))))
			}
		case ft.Kind() == reflect.Slice && ft.Elem() == exprType:
			for j := 0; j < f.Len(); j++ {
				if !f.Index(j).IsNil() {
					f.Index(j).Set(reflect.ValueOf(r.doExpr(f.Index(j).Interface().(ast.Expr))))
				}
			}
		case ft == stmtType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.oneStmt(f.Interface().(ast.Stmt))))
			}
		case ft == stmtsType:
			f.Set(reflect.ValueOf(r.list(f.Interface().([]ast.Stmt))))
		case ft.Kind() == reflect.Ptr && ft.Implements(nodeType), ft.Kind() == reflect.Slice, ft == declType, ft == specType:
			r.walk(f)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// pre marks receives used in a two-value context.
func (r *rw) pre(n any) {
	mark := func(lhs int, rhs []ast.Expr) {
		if lhs == 2 && len(rhs) == 1 {
			if u, ok := unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv2[u] = true
			}
		}
	}
	switch n := n.(type) {
	case *ast.AssignStmt:
		mark(len(n.Lhs), n.Rhs)
	case *ast.ValueSpec:
		mark(len(n.Names), n.Values)
	}
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsim__"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func assign(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || (ok && i.Name == "_")
}

func (r *rw) doExpr(e ast.Expr) ast.Expr {
	r.walk(reflect.ValueOf(e))
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			if r.recv2[e] {
				return call(sel("Recv2"), e.X)
			}
			return call(sel("Recv"), e.X)
		}
	case *ast.CallExpr:
		if i, ok := unparen(e.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[i].(*types.Builtin); ok && b.Name() == "close" {
				return call(sel("Close"), e.Args...)
			}
		}
	}
	return e
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok && t.Type != nil {
		return t.Type
	}
	return nil
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			if u, ok := i.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
			return i.EmbeddedType(0).Underlying()
		}
	}
	return t.Underlying()
}

// oneStmt rewrites a statement where exactly one statement must remain.
func (r *rw) oneStmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		out := r.labeled(s)
		if len(out) == 1 {
			return out[0]
		}
		return &ast.BlockStmt{List: out}
	}
	r.walk(reflect.ValueOf(s))
	switch s := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(sel("SendTo"), s.Chan), s.Value)}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s, "")
	}
	return s
}

func (r *rw) labeled(s *ast.LabeledStmt) []ast.Stmt {
	if in, ok := s.Stmt.(*ast.SelectStmt); ok {
		r.walk(reflect.ValueOf(in))
		return []ast.Stmt{r.selectStmt(in, s.Label.Name)}
	}
	if rs, ok := s.Stmt.(*ast.RangeStmt); ok {
		s.Stmt = r.rangeStmt(rs)
		return []ast.Stmt{s}
	}
	s.Stmt = r.oneStmt(s.Stmt)
	return []ast.Stmt{s}
}

func yield() ast.Stmt { return &ast.ExprStmt{X: call(sel("Y"))} }

func (r *rw) list(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			r.walk(reflect.ValueOf(s))
			out = append(out, s)
			continue
		}
		if r.level >= levelYield {
			out = append(out, yield())
		}
		if l, ok := s.(*ast.LabeledStmt); ok {
			out = append(out, r.labeled(l)...)
			continue
		}
		if t := r.split(s); t != nil {
			out = append(out, t)
			continue
		}
		out = append(out, r.oneStmt(s))
	}
	if len(in) == 0 && r.level >= levelYield {
		// an empty body may be a spin loop
		out = append(out, yield())
	}
	return out
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// split turns x op= y on a possibly shared variable into a load, a scheduling point and a store.
func (r *rw) split(s ast.Stmt) ast.Stmt {
	if r.level < levelSplit || len(r.fnBody) == 0 {
		return nil
	}
	var lhs, rhs ast.Expr
	var op token.Token
	switch s := s.(type) {
	case *ast.IncDecStmt:
		lhs, rhs = s.X, &ast.BasicLit{Kind: token.INT, Value: "1"}
		op = token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
	case *ast.AssignStmt:
		o, ok := opOf[s.Tok]
		if !ok || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			return nil
		}
		lhs, rhs, op = s.Lhs[0], s.Rhs[0], o
	default:
		return nil
	}
	if !r.mayShare(lhs) {
		return nil
	}
	tv, ok := r.info.Types[lhs]
	if !ok || !tv.Addressable() {
		return nil
	}
	calls := false
	ast.Inspect(rhs, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			calls = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				calls = true
			}
		}
		return true
	})
	if calls {
		return nil
	}
	lhs = r.doExpr(lhs)
	rhs = r.doExpr(rhs)
	p, t := id("p__"), id("t__")
	return &ast.BlockStmt{List: []ast.Stmt{
		define([]ast.Expr{p}, &ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: lhs}}),
		define([]ast.Expr{t}, &ast.StarExpr{X: p}),
		yield(),
		assign([]ast.Expr{&ast.StarExpr{X: p}}, &ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: rhs}}),
	}}
}

// mayShare reports whether an expression denotes a variable another goroutine might also use.
func (r *rw) mayShare(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok || e.Name == "_" {
			return false
		}
		fn := r.fnBody[len(r.fnBody)-1]
		return v.Pos() < fn.Pos() || v.Pos() > fn.End()
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[e]; !ok {
			return true // package variable
		}
		if t := r.typeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		return r.mayShare(e.X)
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.mayShare(e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := coreType(r.typeOf(s.X))
	r.walk(reflect.ValueOf(s))
	n := strconv.Itoa(r.uid())
	switch t.(type) {
	case *types.Chan:
		c, ok := id("c"+n+"__"), id("ok"+n+"__")
		var v ast.Expr = id("_")
		var pre []ast.Stmt
		if !isBlank(s.Key) {
			if s.Tok == token.DEFINE {
				v = s.Key
			} else {
				v = id("v" + n + "__")
				pre = append(pre, assign([]ast.Expr{s.Key}, v))
			}
		}
		s.Body.List = append(pre, s.Body.List...)
		return &ast.ForStmt{
			Init: define([]ast.Expr{c, v, ok}, call(sel("R3"), s.X)),
			Cond: ok,
			Post: assign([]ast.Expr{v, ok}, call(sel("Recv2"), c)),
			Body: s.Body,
		}
	case *types.Map:
		m, ks, i, k, v, ok := id("m"+n+"__"), id("ks"+n+"__"), id("i"+n+"__"), ast.Expr(id("_")), ast.Expr(id("_")), id("ok"+n+"__")
		kk := id("k" + n + "__")
		pre := []ast.Stmt{define([]ast.Expr{kk}, &ast.IndexExpr{X: ks, Index: i})}
		vv := id("v" + n + "__")
		pre = append(pre, define([]ast.Expr{vv, ok}, &ast.IndexExpr{X: m, Index: kk}),
			assign([]ast.Expr{id("_")}, vv),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !isBlank(s.Key) {
			pre = append(pre, assign([]ast.Expr{s.Key}, kk))
			if s.Tok == token.DEFINE {
				k = s.Key
			}
		}
		if !isBlank(s.Value) {
			pre = append(pre, assign([]ast.Expr{s.Value}, vv))
			if s.Tok == token.DEFINE {
				v = s.Value
			}
		}
		s.Body.List = append(pre, s.Body.List...)
		return &ast.ForStmt{
			Init: define([]ast.Expr{m, ks, i, k, v}, call(sel("M5"), s.X)),
			Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: call(id("len"), ks)},
			Post: &ast.IncDecStmt{X: i, Tok: token.INC},
			Body: s.Body,
		}
	}
	return s
}

// inline reports whether an argument can be evaluated later without changing its meaning.
func (r *rw) inline(e ast.Expr) bool {
	if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
		return true
	}
	switch e := unparen(e).(type) {
	case *ast.FuncLit, *ast.BasicLit:
		return true
	case *ast.Ident:
		switch r.info.Uses[e].(type) {
		case *types.Func, *types.Nil, *types.Builtin, *types.Const:
			return true
		}
	case *ast.SelectorExpr:
		if _, ok := r.info.Uses[e.Sel].(*types.Func); ok {
			if _, isSel := r.info.Selections[e]; !isSel {
				return true
			}
		}
	}
	return false
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	n := strconv.Itoa(r.uid())
	var out []ast.Stmt
	c := s.Call
	tmp := func(e ast.Expr, name string) ast.Expr {
		if r.inline(e) {
			return e
		}
		v := id(name + n + "__")
		out = append(out, define([]ast.Expr{v}, e))
		return v
	}
	vt := id("vt" + n + "__")
	enter := &ast.DeferStmt{Call: call(call(sel("Enter"), vt))}
	lit, isLit := unparen(c.Fun).(*ast.FuncLit)
	var fun ast.Expr = c.Fun
	if !isLit {
		fun = tmp(c.Fun, "f")
	}
	multi := false
	if len(c.Args) == 1 {
		if t, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok && t.Len() != 1 {
			multi = true
		}
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		if multi {
			args[i] = a
		} else {
			args[i] = tmp(a, fmt.Sprintf("a%d_", i))
		}
	}
	out = append(out, define([]ast.Expr{vt}, call(sel("NewTask"))))
	if isLit {
		lit.Body.List = append([]ast.Stmt{enter}, lit.Body.List...)
		nc := &ast.CallExpr{Fun: lit, Args: args}
		if c.Ellipsis.IsValid() {
			nc.Ellipsis = 1
		}
		out = append(out, &ast.GoStmt{Call: nc})
	} else {
		nc := &ast.CallExpr{Fun: fun, Args: args}
		if c.Ellipsis.IsValid() {
			nc.Ellipsis = 1
		}
		out = append(out, &ast.GoStmt{Call: call(&ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{enter, &ast.ExprStmt{X: nc}}},
		})})
	}
	return &ast.BlockStmt{List: out}
}

// walkSelect rewrites what is inside a select without touching its communications' heads.
func (r *rw) walkSelect(s *ast.SelectStmt) {
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			m.Chan = r.doExpr(m.Chan)
			m.Value = r.doExpr(m.Value)
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			u.X = r.doExpr(u.X)
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			u.X = r.doExpr(u.X)
			for i := range m.Lhs {
				m.Lhs[i] = r.doExpr(m.Lhs[i])
			}
		}
		cc.Body = r.list(cc.Body)
	}
}

func (r *rw) selectStmt(s *ast.SelectStmt, label string) ast.Stmt {
	n := strconv.Itoa(r.uid())
	var out []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	cases := []ast.Expr{id("false")}
	k := 0
	hasDefault := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := cc.Body
		if cc.Comm == nil {
			hasDefault = true
			cases[0] = id("true")
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		v := id(fmt.Sprintf("s%s_%d__", n, k))
		var mk ast.Expr
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = call(call(sel("CS"), m.Chan), m.Value)
		case *ast.ExprStmt:
			mk = call(sel("CR"), unparen(m.X).(*ast.UnaryExpr).X)
		case *ast.AssignStmt:
			mk = call(sel("CR"), unparen(m.Rhs[0]).(*ast.UnaryExpr).X)
			rhs := []ast.Expr{&ast.SelectorExpr{X: v, Sel: id("V")}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: v, Sel: id("OK")})
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs}}, body...)
		}
		out = append(out, define([]ast.Expr{v}, mk))
		cases = append(cases, v)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: body})
		k++
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	sw.Tag = call(sel("Select"), cases...)
	var last ast.Stmt = sw
	if label != "" {
		last = &ast.LabeledStmt{Label: id(label), Stmt: sw}
	}
	return &ast.BlockStmt{List: append(out, last)}
}
