// mut lists first-order mutants of a Go file as JSON lines {off,end,new,line,desc}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	Off, End int
	New      string
	Line     int
	Desc     string
}

func main() {
	path := os.Args[1]
	src, _ := os.ReadFile(path)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(a, b token.Pos, nw, desc string) {
		enc.Encode(mut{off(a), off(b), nw, fs.Position(a).Line, desc})
	}
	swap := map[token.Token][]string{
		token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.AND: {"|"}, token.OR: {"&", "^"}, token.REM: {"/"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "String" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				if l, ok := x.Y.(*ast.Ident); ok && l.Name == "nil" {
					return false
				}
				for _, s := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, fmt.Sprintf("%s -> %s in `%s`", x.Op, s, text(x)))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if x.Value == "0" {
						emit(x.Pos(), x.End(), "1", "0 -> 1")
					} else if x.Value == "1" {
						emit(x.Pos(), x.End(), "2", "1 -> 2")
					} else {
						emit(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+" -1")
					}
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				if len(c) > 6 && c[len(c)-6:] == "!= nil" {
					return true
				}
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "if false: "+c)
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "if true: "+c)
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
					emit(x.Pos(), x.End(), "", "drop "+text(x))
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					ids := ""
					for _, r := range x.Rhs {
						ids += "_ = " + text(r) + "; "
					}
					if len(x.Lhs) == len(x.Rhs) {
						emit(x.Pos(), x.End(), ids, "drop "+text(x))
					}
				}
			case *ast.IncDecStmt:
				nw := "--"
				if x.Tok == token.DEC {
					nw = "++"
				}
				emit(x.TokPos, x.TokPos+2, nw, "incdec "+text(x))
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue", "break -> continue")
				}
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "", "drop continue")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			}
			return true
		})
	}
}
