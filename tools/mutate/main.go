// mutate lists small changes of Go files: one line of JSON each with the file, the byte range and the replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	From, To int
	New      string `json:"new"`
	Desc     string `json:"desc"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, rel := range os.Args[2:] {
		path := filepath.Join(root, rel)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, nw, desc string) {
			enc.Encode(mutant{rel, fset.Position(from).Line, off(from), off(to), nw, desc + ": " + string(src[off(from):off(to)])})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "_ = 0", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "_ = 0", "delete")
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "_ = 0", "delete")
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "continue to break")
				}
				emit(x.Pos(), x.End(), "_ = 0", "delete")
			case *ast.IfStmt:
				c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always")
			case *ast.BinaryExpr:
				if r, ok := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*"}[x.Op]; ok {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "operator")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "plus one")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "minus one")
						}
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					if id, ok := x.Results[len(x.Results)-1].(*ast.Ident); ok && id.Name == "err" {
						emit(id.Pos(), id.End(), "nil", "no error")
					}
				}
			}
			return true
		})
	}
}
