// mutgen lists small changes to Go files, one JSON object a line:
// {"file":…,"from":…,"to":…,"new":…,"what":…,"line":…}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.OR_ASSIGN: {"=", "&="}, token.AND_ASSIGN: {"|=", "="},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, new, what string) {
			enc.Encode(map[string]any{"file": file, "from": off(from), "to": off(to), "new": new, "what": what, "line": fs.Position(from).Line,
				"old": string(src[off(from):off(to)])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator")
					}
				case *ast.AssignStmt:
					for _, s := range swaps[x.Tok] {
						emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s, "operator")
					}
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "assignment removed")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "increment removed")
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "number")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "number")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "condition")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "condition")
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "call removed")
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "defer removed")
				case *ast.GoStmt:
					emit(x.Pos(), x.Call.Pos(), "", "go removed")
				case *ast.BranchStmt:
					emit(x.Pos(), x.End(), "", "branch removed")
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", "error dropped")
						}
						if c, ok := r.(*ast.CallExpr); ok && len(x.Results) > 0 && r == x.Results[len(x.Results)-1] {
							if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Errorf" {
								emit(r.Pos(), r.End(), "nil", "error dropped")
							}
						}
					}
					if len(x.Results) == 0 {
						emit(x.Pos(), x.End(), "", "return removed")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.Pos()+1, "", "not removed")
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						emit(x.List[0].Pos(), x.List[1].Pos(), "", "case removed")
					}
				}
				return true
			})
		}
	}
}
