// Command mut makes mutants of Go files: mut FILE lists them, mut FILE N writes
// the file with mutant N applied to standard output.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	to       string
	line     int
	what     string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&", "|"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	pos := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(from, end token.Pos, to string) {
		o, e := pos(from), pos(end)
		w := strings.Join(strings.Fields(string(src[o:e])), " ")
		if len(w) > 60 {
			w = w[:60] + "..."
		}
		edits = append(edits, edit{o, e, to, fset.Position(from).Line, fmt.Sprintf("%q -> %q", w, to)})
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					// keep what is named used
					add(s.Pos(), s.End(), "")
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s.Pos(), s.End(), "")
			case *ast.BranchStmt:
				if s.Tok == token.BREAK || s.Tok == token.CONTINUE {
					add(s.Pos(), s.End(), "")
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					add(s.Pos(), s.End(), "")
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					add(s.Pos(), s.End(), "")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, to := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), to)
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.OpPos, n.OpPos+1, "")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n.Pos(), n.End(), "("+n.Value+"+1)")
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false")
			} else if n.Name == "false" {
				add(n.Pos(), n.End(), "true")
			}
		case *ast.IncDecStmt:
			to := "--"
			if n.Tok == token.DEC {
				to = "++"
			}
			add(n.TokPos, n.TokPos+2, to)
		case *ast.GenDecl:
			return n.Tok != token.IMPORT
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.List) > 1 {
				for i, e := range n.List {
					if i == 0 {
						add(e.Pos(), n.List[1].Pos(), "")
					} else {
						add(n.List[i-1].End(), e.End(), "")
					}
				}
			}
		}
		return true
	})
	if len(os.Args) > 2 {
		i, _ := strconv.Atoi(os.Args[2])
		e := edits[i]
		os.Stdout.WriteString(string(src[:e.off]) + e.to + string(src[e.end:]))
		return
	}
	for i, e := range edits {
		fmt.Printf("%d\t%d\t%s\n", i, e.line, e.what)
	}
}
