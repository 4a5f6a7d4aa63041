// mutate prints small changes of a Go file as JSON lines: file offsets and
// replacements. tools/mutate.py tries them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	Start, End int
	Repl       string
	Desc       string
	Line       int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	fn := ""
	emit := func(s, e token.Pos, repl, op string) {
		old := string(src[off(s):off(e)])
		if i := strings.Index(old, "\n"); i >= 0 {
			old = old[:i] + "..."
		}
		new := repl
		if i := strings.Index(new, "\n"); i >= 0 {
			new = new[:i] + "..."
		}
		enc.Encode(mutant{off(s), off(e), repl, fmt.Sprintf("%s %s: %s => %s", fn, op, old, new), fset.Position(s).Line})
	}
	logging := func(n ast.Node) bool { return strings.HasPrefix(text(n), "logrus.") }
	flips := map[token.Token][]string{
		token.LSS: {"<=", "!="}, token.LEQ: {"<", "=="}, token.GTR: {">=", "!="}, token.GEQ: {">", "=="},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	}
	var walk func(n ast.Node) bool
	block := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt:
				if logging(x) {
					continue
				}
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "delete")
				}
			case *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.GoStmt:
				emit(x.Pos(), x.End(), "", "delete")
				emit(x.Pos(), x.Call.Pos(), "", "no go")
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label != nil {
					emit(x.Pos(), x.End(), "continue", "branch")
				}
			case *ast.ReturnStmt:
				if n := len(x.Results); n > 0 && text(x.Results[n-1]) == "err" {
					emit(x.Results[n-1].Pos(), x.Results[n-1].End(), "nil", "return")
				}
			}
			if i+1 < len(l) {
				movable := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.ExprStmt:
						return !logging(x)
					case *ast.AssignStmt:
						return true
					case *ast.IncDecStmt, *ast.GoStmt, *ast.SendStmt, *ast.IfStmt:
						return true
					}
					return false
				}
				// past log statements
				j := i + 1
				for j < len(l) {
					if e, ok := l[j].(*ast.ExprStmt); !ok || !logging(e) {
						break
					}
					j++
				}
				if j < len(l) && movable(s) && movable(l[j]) {
					emit(s.Pos(), l[j].End(), text(l[j])+"\n"+text(s), "swap")
				}
			}
		}
	}
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			if fn == "String" {
				return false
			}
		case *ast.ImportSpec:
			return false
		case *ast.CallExpr:
			if logging(x) {
				return false
			}
		case *ast.BlockStmt:
			block(x.List)
		case *ast.CaseClause:
			block(x.Body)
		case *ast.CommClause:
			block(x.Body)
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
			emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
		case *ast.BinaryExpr:
			for _, r := range flips[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "operator in "+text(x))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				emit(x.Pos(), x.End(), "("+x.Value+"+1)", "literal")
				if x.Value != "0" && x.Value != "0x00" {
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", "literal")
				}
			}
		case *ast.SelectorExpr:
			if text(x) == "binary.BigEndian" {
				emit(x.Pos(), x.End(), "binary.LittleEndian", "endian")
			}
		}
		return true
	}
	ast.Inspect(f, walk)
}
