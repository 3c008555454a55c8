// Command instr rewrites a Go package so that package vs controls its
// concurrency: instr OUT PKGDIR... writes rewritten copies to OUT, and an
// overlay for go build to OUT/overlay.json.
//
// Every statement gets preceded by a point where the scheduler may switch, and
// channel operations, go statements, and the packages sync and log are
// replaced. So is package bytes, by one whose Buffer is rewritten likewise.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

const mod = "verif.local/mc/"

var imports = map[string]string{"sync": mod + "vsync", "log": mod + "vlog", "bytes": mod + "vbytes"}

type failing struct{}

func (failing) Import(path string) (*types.Package, error) { return nil, fmt.Errorf("not imported") }

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

func main() {
	out := os.Args[1]
	overlay := map[string]string{}
	for _, dir := range os.Args[2:] {
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			fatal(err)
		}
		var files []string
		for _, name := range names {
			if ok, err := build.Default.MatchFile(dir, filepath.Base(name)); err == nil && ok && !strings.HasSuffix(name, "_test.go") {
				files = append(files, name)
			}
		}
		for name, src := range rewrite(files, imports) {
			dst := filepath.Join(out, strings.Replace(strings.Trim(name, "/"), "/", "_", -1))
			if err := os.WriteFile(dst, src, 0644); err != nil {
				fatal(err)
			}
			overlay[name] = dst
		}
	}
	// package bytes
	bdir := filepath.Join(runtime.GOROOT(), "src", "bytes")
	vdir, err := filepath.Abs("vbytes")
	if err != nil {
		fatal(err)
	}
	for name, src := range rewrite([]string{filepath.Join(bdir, "buffer.go")}, nil) {
		src = bytes.Replace(src, []byte("package bytes"), []byte("package vbytes"), 1)
		dst := filepath.Join(out, "vbytes_buffer.go")
		if err := os.WriteFile(dst, src, 0644); err != nil {
			fatal(err)
		}
		overlay[filepath.Join(vdir, filepath.Base(name))] = dst
	}
	dst := filepath.Join(out, "vbytes_rest.go")
	if err := os.WriteFile(dst, forward(bdir), 0644); err != nil {
		fatal(err)
	}
	overlay[filepath.Join(vdir, "rest.go")] = dst
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fatal(err)
	}
}

// forward makes a file that forwards to all of package bytes but Buffer.
func forward(dir string) []byte {
	fset := token.NewFileSet()
	var names []string
	for _, f := range []string{"bytes.go", "reader.go", "iter.go"} {
		file, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() && d.Type.TypeParams == nil {
					names = append(names, d.Name.Name)
				}
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package vbytes\nimport \"bytes\"\ntype Reader = bytes.Reader\nvar (\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "%s = bytes.%s\n", n, n)
	}
	sb.WriteString(")\n")
	return []byte(sb.String())
}

func rewrite(names []string, imports map[string]string) map[string][]byte {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, name := range names {
		f, err := parser.ParseFile(fset, name, nil, 0) // without comments
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
	}
	r := &rewriter{info: types.Info{Types: map[ast.Expr]types.TypeAndValue{}}}
	conf := types.Config{Importer: failing{}, Error: func(error) {}}
	conf.Check("p", fset, files, &r.info)
	res := map[string][]byte{}
	for i, f := range files {
		f.Comments = nil
		for _, imp := range f.Imports {
			path, _ := strconv.Unquote(imp.Path.Value)
			if to := imports[path]; to != "" {
				if imp.Name == nil {
					imp.Name = ast.NewIdent(filepath.Base(path))
				}
				imp.Path.Value = strconv.Quote(to)
			}
		}
		for _, d := range f.Decls {
			r.walk(reflect.ValueOf(d))
		}
		var sb bytes.Buffer
		if err := format.Node(&sb, fset, f); err != nil {
			fatal(err)
		}
		src := sb.String()
		// import vs, always used
		j := strings.Index(src, "package "+f.Name.Name)
		j += len("package " + f.Name.Name)
		src = src[:j] + "\n\nimport vs \"" + mod + "vs\"\n\nvar _ = vs.Yield\n" + src[j:]
		src = fixImports(src)
		res[names[i]] = []byte(src)
	}
	return res
}

// fixImports moves the declaration after all imports.
func fixImports(src string) string {
	src = strings.Replace(src, "\nvar _ = vs.Yield\n", "\n", 1)
	return src + "\nvar _ = vs.Yield\n"
}

type rewriter struct {
	info types.Info
	n    int
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vs_%s%d", s, r.n))
}

func vsFn(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vs"), Sel: ast.NewIdent(name)}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: vsFn(name), Args: args}
}

func define(names []ast.Expr, vals ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
}

var (
	exprType  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	exprsType = reflect.TypeOf([]ast.Expr(nil))
	stmtsType = reflect.TypeOf([]ast.Stmt(nil))
)

// walk rewrites everything below a node.
func (r *rewriter) walk(v reflect.Value) {
	if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Ptr {
			switch v.Interface().(type) {
			case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Ident:
				return
			case *ast.SelectStmt:
				r.walkSelect(v.Interface().(*ast.SelectStmt))
				return
			}
		}
		r.walk(v.Elem())
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if n, ok := v.Addr().Interface().(ast.Node); ok {
			r.two(n)
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Type() {
			case exprType:
				if !f.IsNil() {
					r.walk(f)
					f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
				}
			case stmtType:
				if !f.IsNil() {
					r.walk(f)
					f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
				}
			case exprsType:
				es := f.Interface().([]ast.Expr)
				for i := range es {
					r.walk(reflect.ValueOf(es[i]))
					es[i] = r.expr(es[i])
				}
			case stmtsType:
				f.Set(reflect.ValueOf(r.stmts(f.Interface().([]ast.Stmt), v.Addr().Interface())))
			default:
				switch f.Kind() {
				case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Struct:
					r.walk(f)
				}
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			switch v.Index(i).Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Struct:
				r.walk(v.Index(i))
			}
		}
	}
}

// two handles receives that also return whether the channel is open.
func (r *rewriter) two(n ast.Node) {
	fix := func(lhs int, rhs []ast.Expr) {
		if lhs == 2 && len(rhs) == 1 {
			if u, ok := unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				rhs[0] = call("Recv2", u.X)
			}
		}
	}
	switch n := n.(type) {
	case *ast.AssignStmt:
		fix(len(n.Lhs), n.Rhs)
	case *ast.ValueSpec:
		fix(len(n.Names), n.Values)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call("Recv", e.X)
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "close" && len(e.Args) == 1 {
			return call("Close", e.Args[0])
		}
	}
	return e
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call("Send", s.Chan, s.Value)}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.DeferStmt:
		if c, ok := r.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.GoStmt:
		c := s.Call
		if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			return &ast.ExprStmt{X: call("Go", c.Fun)}
		}
		names, vals := []ast.Expr{r.tmp("f")}, []ast.Expr{c.Fun}
		inner := &ast.CallExpr{Fun: names[0], Ellipsis: c.Ellipsis}
		for _, a := range c.Args {
			id := r.tmp("a")
			names, vals = append(names, id), append(vals, a)
			inner.Args = append(inner.Args, id)
		}
		f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
		return &ast.BlockStmt{List: []ast.Stmt{define(names, vals...), &ast.ExprStmt{X: call("Go", f)}}}
	case *ast.RangeStmt:
		t := r.info.Types[s.X].Type
		if t == nil {
			return s
		}
		if _, ok := t.Underlying().(*types.Chan); !ok {
			return s
		}
		v, ok := r.tmp("v"), r.tmp("ok")
		ch := r.tmp("c")
		list := []ast.Stmt{
			define([]ast.Expr{v, ok}, call("Recv2", ch)),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		if s.Key != nil {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		}
		list = append(list, s.Body.List...)
		return &ast.ForStmt{Init: define([]ast.Expr{ch}, s.X), Body: &ast.BlockStmt{List: list}}
	}
	return s
}

func yield() ast.Stmt { return &ast.ExprStmt{X: call("Point")} }

func (r *rewriter) stmts(list []ast.Stmt, parent interface{}) (res []ast.Stmt) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			r.walk(reflect.ValueOf(s))
			res = append(res, s)
			continue
		case *ast.EmptyStmt:
			res = append(res, s)
			continue
		case *ast.LabeledStmt:
			r.walk(reflect.ValueOf(s))
			res = append(res, yield(), s)
			continue
		}
		quiet := local(s)
		v := reflect.New(stmtType).Elem()
		v.Set(reflect.ValueOf(s))
		r.walk(v)
		if !quiet {
			res = append(res, yield())
		}
		res = append(res, r.stmt(s))
	}
	return res
}

// local is true for a statement that only ends things, or declares variables
// without a value.
func local(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.BranchStmt:
		return true
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			switch e.(type) {
			case *ast.Ident, *ast.BasicLit:
			default:
				return false
			}
		}
		return true
	}
	return false
}

// selectStmt turns a select into a switch.
func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var names, vals []ast.Expr
	body := &ast.BlockStmt{}
	args := []ast.Expr{ast.NewIdent("false")}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			args[0] = ast.NewIdent("true")
			body.List = append(body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		id := r.tmp("c")
		sel := func(f string) ast.Expr { return &ast.SelectorExpr{X: id, Sel: ast.NewIdent(f)} }
		clause := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}}}
		names = append(names, id)
		args = append(args, id)
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, call("CaseSend", comm.Chan, comm.Value))
		case *ast.ExprStmt:
			vals = append(vals, call("CaseRecv", unparen(comm.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			vals = append(vals, call("CaseRecv", unparen(comm.Rhs[0]).(*ast.UnaryExpr).X))
			got := []ast.Expr{sel("V"), sel("Ok")}
			clause.Body = append(clause.Body, &ast.AssignStmt{Lhs: comm.Lhs, Tok: comm.Tok, Rhs: got[:len(comm.Lhs)]})
		}
		clause.Body = append(clause.Body, cc.Body...)
		body.List = append(body.List, clause)
	}
	sw := &ast.SwitchStmt{Tag: call("Select", args...), Body: body}
	if len(names) > 0 {
		sw.Init = define(names, vals...)
	}
	return sw
}

// walkSelect rewrites what is in a select.
func (r *rewriter) walkSelect(s *ast.SelectStmt) {
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			r.walkExpr(&comm.Chan)
			r.walkExpr(&comm.Value)
		case *ast.ExprStmt:
			r.walkExpr(&unparen(comm.X).(*ast.UnaryExpr).X)
		case *ast.AssignStmt:
			r.walkExpr(&unparen(comm.Rhs[0]).(*ast.UnaryExpr).X)
		}
		cc.Body = r.stmts(cc.Body, cc)
	}
}

func (r *rewriter) walkExpr(e *ast.Expr) {
	r.walk(reflect.ValueOf(e).Elem())
	*e = r.expr(*e)
}
