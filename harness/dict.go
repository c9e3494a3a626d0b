package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"
)

// Literals of the library's source steer the generators, as a fuzzer's dictionary
// does: behaviour that depends on a particular value is tried at that value.
// They decide nothing.
var (
	dictInts    []int64  // each literal and its neighbours
	dictStrs    []string // short string literals
	dictLengths []int    // literals that may be a length, and their neighbours
	dictLarge   []int    // larger literals
	dictTimes   []time.Duration
)

func loadDictionary(repo string) {
	ints, strs := map[int64]bool{}, map[string]bool{}
	times := map[time.Duration]bool{}
	filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); path != repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		for _, decl := range f.Decls {
			if g, ok := decl.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(decl, func(n ast.Node) bool {
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				if d := duration(e); d > 0 {
					times[d] = true
				}
				v := literal(e)
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.String:
					if s := constant.StringVal(v); len(s) <= 80 {
						strs[s] = true
					}
				case constant.Int, constant.Float:
					if i, exact := constant.Int64Val(constant.ToInt(v)); exact {
						ints[i] = true
					}
				}
				return true
			})
		}
		return nil
	})
	for i := range ints {
		if i >= 1000 && i <= 1<<31-1 {
			dictLarge = append(dictLarge, int(i))
		}
	}
	sort.Ints(dictLarge)
	for d := range times {
		dictTimes = append(dictTimes, d)
	}
	slices.Sort(dictTimes)
	near := map[int64]bool{}
	lens := map[int]bool{}
	for i := range ints {
		for d := int64(-1); d <= 1; d++ {
			near[i+d] = true
			near[-i+d] = true
			if n := i + d; n >= 2 && n <= 70000 {
				lens[int(n)] = true
			}
		}
	}
	for i := range near {
		dictInts = append(dictInts, i)
	}
	for s := range strs {
		dictStrs = append(dictStrs, s)
	}
	for n := range lens {
		dictLengths = append(dictLengths, n)
	}
	sort.Slice(dictInts, func(i, j int) bool { return dictInts[i] < dictInts[j] })
	sort.Strings(dictStrs)
	sort.Ints(dictLengths)
	if len(dictInts) > 400 {
		dictInts = dictInts[:400]
	}
	if len(dictStrs) > 300 {
		dictStrs = dictStrs[:300]
	}
	if len(dictLengths) > 300 {
		dictLengths = dictLengths[:300]
	}
}

// largeLiterals are at most a dozen of the library's literals within the limits.
func largeLiterals(lo, hi int) []int {
	var out []int
	for _, n := range dictLarge {
		if n >= lo && n <= hi && len(out) < 12 {
			out = append(out, n)
		}
	}
	return out
}

// duration evaluates products of literals and the units of package time.
func duration(e ast.Expr) time.Duration {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return duration(e.X)
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && x.Name == "time" {
			return map[string]time.Duration{"Microsecond": time.Microsecond, "Millisecond": time.Millisecond, "Second": time.Second, "Minute": time.Minute, "Hour": time.Hour}[e.Sel.Name]
		}
	case *ast.BinaryExpr:
		if e.Op != token.MUL {
			return 0
		}
		for _, p := range [][2]ast.Expr{{e.X, e.Y}, {e.Y, e.X}} {
			if d := duration(p[0]); d > 0 {
				if v := literal(p[1]); v != nil {
					if n, ok := constant.Int64Val(constant.ToInt(v)); ok && n > 0 && n < 1<<40 {
						return d * time.Duration(n)
					}
				}
			}
		}
	}
	return 0
}

// literal evaluates constant expressions made of literals only.
func literal(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if e.Kind == token.FLOAT {
			v = constant.ToInt(v)
		}
		if v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return literal(e.X)
	case *ast.UnaryExpr:
		if x := literal(e.X); x != nil {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := literal(e.X), literal(e.Y)
		if x == nil || y == nil || x.Kind() == constant.String || y.Kind() == constant.String {
			return nil
		}
		switch e.Op {
		case token.SHL:
			if n, ok := constant.Uint64Val(y); ok && n < 63 {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}
