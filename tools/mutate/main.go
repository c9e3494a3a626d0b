// Command mutate lists or applies small source mutations of one Go file.
//
//	mutate FILE            prints the number of mutations
//	mutate FILE N          prints mutation N applied (to stdout), its description to stderr
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	a, b int
	text string
	desc string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ms []mut
	add := func(a, b token.Pos, text, what string) {
		ms = append(ms, mut{off(a), off(b), text, fmt.Sprintf("line %d: %s: %q -> %q", fset.Position(a).Line, what, src[off(a):off(b)], text)})
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, op := range swap[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), op, "operator")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), "constant")
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), "constant")
					}
				}
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "true || "+string(src[off(n.Cond.Pos()):off(n.Cond.End())]), "condition")
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")", "condition")
		case *ast.BlockStmt:
			for _, s := range n.List {
				stmt(s, add)
			}
			for i := 0; i+1 < len(n.List); i++ { // swap neighbours
				x, y := n.List[i], n.List[i+1]
				if simple(x) && simple(y) {
					sx, sy := string(src[off(x.Pos()):off(x.End())]), string(src[off(y.Pos()):off(y.End())])
					if sx != sy {
						add(x.Pos(), y.End(), sy+"\n"+sx, "swap")
					}
				}
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				stmt(s, add)
			}
		case *ast.CommClause:
			for _, s := range n.Body {
				stmt(s, add)
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(r.Pos(), r.End(), "nil", "result")
				}
			}
		case *ast.SelectorExpr:
			// another field of the same value is type dependent; leave it to the compiler
		}
		return true
	})
	if len(os.Args) == 2 {
		fmt.Println(len(ms))
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := ms[i]
	fmt.Fprintln(os.Stderr, m.desc)
	os.Stdout.Write(src[:m.a])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.b:])
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	}
	return false
}

func stmt(s ast.Stmt, add func(a, b token.Pos, text, what string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
		add(s.Pos(), s.End(), "{}", "delete")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "{}", "delete")
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			add(s.Pos(), s.End(), "{}", "delete")
		}
	}
}
