// mutate FILE: prints the mutations of a Go file, one JSON object a line:
// {"file","line","start","end","new","what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutation struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
}

func main() {
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		emit := func(a, b token.Pos, text, what string) {
			p := fs.Position(a)
			enc.Encode(mutation{name, p.Line, p.Offset, fs.Position(b).Offset, text, what})
		}
		at := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		ops := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		swap := map[string]string{"STRICT": "EQUAL", "EQUAL": "EQUALP", "EQUALP": "EQUAL", "true": "false", "false": "true", "True": "Null", "PRINT": "PRINC", "PRINC": "PRINT"}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), at(x.X), "only the first operand")
					emit(x.Pos(), x.End(), at(x.Y), "only the second operand")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "n+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "n-1")
						}
					}
				}
			case *ast.Ident:
				if s, ok := swap[x.Name]; ok {
					emit(x.Pos(), x.End(), s, x.Name+" -> "+s)
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+at(x.Cond)+") && false", "if false")
				if at(x.Cond) != "err != nil" {
					emit(x.Cond.Pos(), x.Cond.End(), "("+at(x.Cond)+") || true", "if true")
				}
				if x.Else != nil {
					emit(x.Body.End(), x.Else.End(), "", "no else")
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "no call")
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "no defer")
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "no ++/--")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "no assignment")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "continue -> break")
				}
				if x.Label == nil && x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue", "break -> continue")
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 2 && at(x.Results[1]) == "nil" && at(x.Results[0]) != "Null" {
					emit(x.Results[0].Pos(), x.Results[0].End(), "Null", "returns Null")
				}
				if len(x.Results) > 0 && at(x.Results[len(x.Results)-1]) == "err" {
					l := x.Results[len(x.Results)-1]
					emit(l.Pos(), l.End(), "nil", "returns no error")
				}
			}
			return true
		})
	}
}
