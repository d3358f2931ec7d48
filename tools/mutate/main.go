// mutate FILE prints simple changes of a Go file as JSON lines:
// {"line", "kind", "from", "to", "text"} with byte offsets and the replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	Line int    `json:"line"`
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	Old  string `json:"old"`
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	enc := json.NewEncoder(os.Stdout)
	emit := func(kind string, from, to token.Pos, text string) {
		enc.Encode(mutant{fset.Position(from).Line, kind, off(from), off(to), text, string(src[off(from):off(to)])})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				emit("drop", s.Pos(), s.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit("drop", s.Pos(), s.End(), "")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit("drop", s.Pos(), s.End(), "")
				}
			case *ast.BranchStmt:
				emit("drop", s.Pos(), s.End(), "")
				if x.Tok == token.CONTINUE && x.Label == nil {
					emit("branch", s.Pos(), s.End(), "break")
				}
			case *ast.IfStmt:
				if x.Init == nil {
					emit("drop-if", s.Pos(), s.End(), "")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, o := range swap[x.Op] {
				if x.Op == token.ADD {
					if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
				}
				emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit("left", x.Pos(), x.End(), text(x.X))
				emit("right", x.Pos(), x.End(), text(x.Y))
			}
			if x.Op == token.ADD {
				emit("left", x.Pos(), x.End(), text(x.X))
				emit("right", x.Pos(), x.End(), text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit("not", x.OpPos, x.OpPos+1, "")
			}
		case *ast.IfStmt:
			emit("true", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
			emit("false", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				emit("drop-else", b.Pos(), b.End(), "{}")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				if v, err := strconv.Unquote(x.Value); err == nil && x.Value[0] == '"' {
					if v == "" {
						emit("string", x.Pos(), x.End(), `"x"`)
					} else {
						emit("string", x.Pos(), x.End(), `""`)
					}
				}
			case token.CHAR:
				emit("char", x.Pos(), x.End(), `'\x01'`)
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit("bool", x.Pos(), x.End(), "false")
			} else if x.Name == "false" {
				emit("bool", x.Pos(), x.End(), "true")
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.List) > 1 {
				for i, e := range x.List {
					if i == 0 {
						emit("case", e.Pos(), x.List[1].Pos(), "")
					} else {
						emit("case", x.List[i-1].End(), e.End(), "")
					}
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit("slice", x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
			}
			if x.High != nil {
				emit("slice", x.High.Pos(), x.High.End(), text(x.High)+"-1")
			}
		case *ast.CallExpr:
			// the same call with two neighbouring arguments exchanged
			for i := 0; i+1 < len(x.Args); i++ {
				if text(x.Args[i]) != text(x.Args[i+1]) {
					emit("args", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
			}
		case *ast.FuncLit, *ast.FuncDecl:
		}
		return true
	})
}
