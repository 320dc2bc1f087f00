// Command mutate prints small changes of a Go source file, one JSON object
// per line: {"off", "end", "new", "line", "what"}. Used to look for changes
// the checks do not notice (tools/mutants.py).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swap = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(from, to token.Pos, repl, what string) {
		enc.Encode(map[string]interface{}{"off": off(from), "end": off(to), "new": repl, "line": fs.Position(from).Line, "what": what + ": " + string(src[off(from):off(to)]) + " => " + repl})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), "op in "+text(x))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.Pos(), x.End(), text(x.X), "drop right")
				emit(x.Pos(), x.End(), text(x.Y), "drop left")
			}
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
			emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			if x.Else != nil {
				emit(x.Body.End(), x.Else.End(), "", "drop else")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT || x.Op == token.SUB {
				emit(x.OpPos, x.OpPos+1, "", "drop unary")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
					if v > 0 {
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				emit(x.Pos(), x.End(), `""`, "string")
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				emit(x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name], "bool")
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit(x.Low.Pos(), x.Low.End(), "", "drop low")
			}
			if x.High != nil && x.Max == nil {
				emit(x.High.Pos(), x.High.End(), "", "drop high")
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 && x.Ellipsis == 0 {
				emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap args")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					emit(r.Pos(), r.End(), "nil", "drop error")
				}
			}
		case *ast.DeferStmt:
			emit(x.Pos(), x.End(), "", "drop defer")
			emit(x.Pos(), x.Call.Pos(), "", "no defer")
		case *ast.GoStmt:
			emit(x.Pos(), x.Call.Pos(), "", "no go")
		case *ast.ExprStmt:
			emit(x.Pos(), x.End(), "", "drop call")
		case *ast.SendStmt:
			emit(x.Pos(), x.End(), "", "drop send")
		case *ast.IncDecStmt:
			emit(x.Pos(), x.End(), "", "drop incdec")
			emit(x.TokPos, x.TokPos+2, map[token.Token]string{token.INC: "--", token.DEC: "++"}[x.Tok], "incdec")
		case *ast.BranchStmt:
			if x.Label == nil {
				switch x.Tok {
				case token.BREAK:
					emit(x.Pos(), x.End(), "", "drop break")
					emit(x.Pos(), x.End(), "continue", "branch")
				case token.CONTINUE:
					emit(x.Pos(), x.End(), "", "drop continue")
					emit(x.Pos(), x.End(), "break", "branch")
				}
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				emit(x.Pos(), x.End(), "", "drop assign")
				if x.Tok != token.ASSIGN {
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "plain assign")
				}
			}
		case *ast.CaseClause:
			if x.List != nil && len(x.List) > 1 {
				for i, e := range x.List {
					if i > 0 {
						emit(x.List[i-1].End(), e.End(), "", "drop case value")
					}
				}
			}
			if len(x.Body) > 0 {
				emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
			}
		case *ast.CommClause:
			if len(x.Body) > 0 {
				emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty comm")
			}
		}
		return true
	})
}
