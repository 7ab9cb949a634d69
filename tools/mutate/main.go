// mutate lists one-edit changes to the Go files named, one JSON object a line: {file, off, len, new, line, what}.
// tools/mutants.py applies a sample of them to a copy of the repository, drops those the build or the repository's
// own tests notice, and runs the checks on the rest: what survives points at what no check looks at.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Line int    `json:"line"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, repl, what string) {
			enc.Encode(mut{file, off(from), off(to) - off(from), repl, fset.Position(from).Line, what})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[v.Op] {
					if lit, ok := v.X.(*ast.BasicLit); ok && lit.Kind == token.STRING {
						continue
					}
					emit(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), s, v.Op.String()+" -> "+s)
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					emit(v.Pos(), v.End(), text(v.X), "drop right operand")
					emit(v.Pos(), v.End(), text(v.Y), "drop left operand")
				}
			case *ast.IfStmt:
				emit(v.Cond.Pos(), v.Cond.End(), "!("+text(v.Cond)+")", "negate condition")
				emit(v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") && false", "never")
				emit(v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") || true", "always")
			case *ast.ExprStmt:
				emit(v.Pos(), v.End(), "", "drop call")
			case *ast.DeferStmt:
				emit(v.Pos(), v.End(), "", "drop defer")
			case *ast.AssignStmt:
				if v.Tok == token.ASSIGN || v.Tok == token.ADD_ASSIGN || v.Tok == token.SUB_ASSIGN {
					s := ""
					for _, l := range v.Rhs {
						s += "_ = " + text(l) + ";"
					}
					emit(v.Pos(), v.End(), s, "drop assignment")
				}
			case *ast.BranchStmt:
				if v.Tok == token.CONTINUE {
					emit(v.Pos(), v.End(), "break", "continue -> break")
				}
			case *ast.IncDecStmt:
				emit(v.Pos(), v.End(), "", "drop ++/--")
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if i, err := strconv.Atoi(v.Value); err == nil {
						emit(v.Pos(), v.End(), fmt.Sprint(i+1), "int+1")
						if i > 0 {
							emit(v.Pos(), v.End(), fmt.Sprint(i-1), "int-1")
						}
					}
				}
				if v.Kind == token.FLOAT {
					emit(v.Pos(), v.End(), v.Value+"*2", "float*2")
				}
			case *ast.Ident:
				if v.Name == "true" {
					emit(v.Pos(), v.End(), "false", "true -> false")
				}
				if v.Name == "false" {
					emit(v.Pos(), v.End(), "true", "false -> true")
				}
			case *ast.CallExpr:
				if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "append" {
					emit(v.Pos(), v.End(), text(v.Args[0]), "append nothing")
				}
				if sel, ok := v.Fun.(*ast.SelectorExpr); ok {
					for a, b := range map[string]string{"MaxInt": "MinInt", "MinInt": "MaxInt", "MaxFloat": "MinFloat", "MinFloat": "MaxFloat", "MaxFloatPtr": "MinFloatPtr", "MinFloatPtr": "MaxFloatPtr", "MaxIntPtr": "MinIntPtr", "MinIntPtr": "MaxIntPtr", "Ceil": "Floor", "Floor": "Ceil", "HasPrefix": "Contains", "HasSuffix": "Contains"} {
						if sel.Sel.Name == a {
							emit(sel.Sel.Pos(), sel.Sel.End(), b, a+" -> "+b)
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range v.Body {
					_ = s
				}
				if len(v.Body) > 0 && len(v.List) > 0 {
					emit(v.Body[0].Pos(), v.Body[0].Pos(), "break;", "skip case")
				}
			case *ast.RangeStmt:
				if len(v.Body.List) > 0 {
					emit(v.Body.List[0].Pos(), v.Body.List[0].Pos(), "if true {break};", "skip loop")
				}
			case *ast.FuncDecl:
				return true
			}
			return true
		})
	}
}
