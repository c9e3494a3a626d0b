// instrument writes a build overlay in which every statement of the named packages
// of the library is preceded, on its own line, by a schedule perturbation point.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	for _, dir := range os.Args[3:] {
		if err := pkg(filepath.Join(repo, dir), filepath.Join(out, strings.ReplaceAll(dir, "/", "_")+"_pkg"), replace); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	data, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func pkg(dir, out string, replace map[string]string) error {
	if err := os.MkdirAll(out, 0755); err != nil {
		return err
	}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	site := 0
	name := ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if strings.Contains(string(src), "//go:build ignore") {
			continue
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			return err
		}
		name = file.Name.Name
		var offs []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				offs = append(offs, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			if fd, ok := n.(*ast.FuncDecl); ok && fd.Name.Name == "init" && fd.Recv == nil {
				return true
			}
			switch b := n.(type) {
			case *ast.BlockStmt:
				// the block of a switch or select holds clauses, not statements
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
		sort.Ints(offs)
		var sb strings.Builder
		last := 0
		for _, o := range offs {
			sb.Write(src[last:o])
			fmt.Fprintf(&sb, "verifPoint(%d);", site)
			site++
			last = o
		}
		sb.Write(src[last:])
		dst := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(dst, []byte(sb.String()), 0644); err != nil {
			return err
		}
		replace[f] = dst
	}
	hook := fmt.Sprintf(`package %s

import verifyield "verif/harness/yield"

var verifFirst = verifyield.Register(%d)

func verifPoint(site int) { verifyield.Point(verifFirst + site) }
`, name, site)
	dst := filepath.Join(out, "zz_verif_hook.go")
	if err := os.WriteFile(dst, []byte(hook), 0644); err != nil {
		return err
	}
	replace[filepath.Join(dir, "zz_verif_hook.go")] = dst
	return nil
}
