// yieldgen writes copies of packages in which every statement is preceded by a call
// of yield.P, and the overlay file that puts them in place of the originals.
//
//	yieldgen REPO OUTDIR OVERLAY PKG...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	for _, pkg := range os.Args[4:] {
		files, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		check(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			dst, n := instrument(f, src)
			if n == 0 {
				continue
			}
			name := filepath.Join(out, strings.ReplaceAll(strings.Trim(pkg, "."), "/", "_")+"_"+filepath.Base(f))
			check(os.WriteFile(name, dst, 0o644))
			replace[f] = name
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	check(os.WriteFile(overlay, b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func instrument(name string, src []byte) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	check(err)
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			// the block of a switch or select holds clauses, not statements
			if len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(b.List)
		case *ast.CaseClause:
			list(b.Body)
		case *ast.CommClause:
			list(b.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, 0
	}
	sort.Ints(at)
	var out []byte
	pos := 0
	end := fset.Position(f.Name.End()).Offset
	out = append(out, src[:end]...)
	out = append(out, "; import verifyield \"verif/harness/yield\""...)
	pos = end
	for _, o := range at {
		out = append(out, src[pos:o]...)
		out = append(out, "verifyield.P(); "...)
		pos = o
	}
	return append(out, src[pos:]...), len(at)
}
