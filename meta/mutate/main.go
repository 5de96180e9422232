// mutate lists single-point changes of Go files as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string
	Off, End int
	New      string
	Line     int
	Desc     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile(file)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(n ast.Node, a, b token.Pos, s, d string) {
			enc.Encode(mut{file, off(a), off(b), s, fs.Position(a).Line, d})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch v := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
					put(s, s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.GoStmt:
					put(s, s.Pos(), s.End(), "", "drop "+text(s))
					put(s, s.Pos(), v.Call.Pos(), "", "no go "+text(s))
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						put(s, s.Pos(), s.End(), "", "drop "+text(s))
					}
				case *ast.IfStmt:
					put(s, v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") && false", "never "+text(v.Cond))
					put(s, v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") || true", "always "+text(v.Cond))
				case *ast.BranchStmt:
					put(s, s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.ReturnStmt:
					if len(v.Results) == 0 {
						put(s, s.Pos(), s.End(), "", "drop return")
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BlockStmt:
				stmts(v.List)
				// swap neighbours
				for i := 0; i+1 < len(v.List); i++ {
					a, b := v.List[i], v.List[i+1]
					ok := func(s ast.Stmt) bool {
						switch s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.AssignStmt, *ast.GoStmt, *ast.SendStmt:
							return true
						}
						return false
					}
					if ok(a) && ok(b) {
						put(a, a.Pos(), b.End(), text(b)+"\n"+text(a), "swap "+text(a)+" / "+text(b))
					}
				}
			case *ast.CaseClause:
				stmts(v.Body)
			case *ast.CommClause:
				stmts(v.Body)
			case *ast.BinaryExpr:
				for _, s := range swap[v.Op] {
					put(v, v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), s, fmt.Sprintf("%s -> %s in %s", v.Op, s, text(v)))
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if x, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
						put(v, v.Pos(), v.End(), strconv.FormatInt(x+1, 10), v.Value+" + 1")
						if x > 0 {
							put(v, v.Pos(), v.End(), strconv.FormatInt(x-1, 10), v.Value+" - 1")
						}
					}
				}
			case *ast.Ident:
				if v.Name == "true" {
					put(v, v.Pos(), v.End(), "false", "true -> false")
				} else if v.Name == "false" {
					put(v, v.Pos(), v.End(), "true", "false -> true")
				}
			}
			return true
		})
	}
}
