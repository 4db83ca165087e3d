// Command mutate prints mutants of a Go file as JSON lines {file,off,len,new,desc}.
// It is used to look for changes that no check notices.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.AND_NOT: {"&"},
}

var assigns = map[token.Token]string{
	token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "&=", token.AND_ASSIGN: "|=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=", token.MUL_ASSIGN: "+=", token.QUO_ASSIGN: "*=",
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, s, desc string) {
			p := fset.Position(from)
			enc.Encode(mutant{fn, off(from), off(to) - off(from), s, fmt.Sprintf("%s:%d: %s", fn, p.Line, desc)})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR && x.Tok != token.CONST {
					return false
				}
			case *ast.IfStmt:
				if strings.Contains(text(x.Cond), "Debug") {
					return false
				}
				c := text(x.Cond)
				if c != "err != nil" {
					emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate "+c)
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "never "+c)
				} else {
					emit(x.Cond.Pos(), x.Cond.End(), "false", "ignore err")
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					l := len(x.Op.String())
					emit(x.OpPos, x.OpPos+token.Pos(l), s, fmt.Sprintf("%s: %s -> %s", text(x), x.Op, s))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", x.Value, v+1))
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%s -> %d", x.Value, v-1))
						}
					}
				}
			case *ast.AssignStmt:
				if s, ok := assigns[x.Tok]; ok {
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s, text(x)+": "+s)
				}
				if x.Tok != token.DEFINE {
					var u []string
					for _, e := range x.Rhs {
						u = append(u, "_ = "+text(e))
					}
					if len(x.Rhs) == len(x.Lhs) {
						emit(x.Pos(), x.End(), strings.Join(u, "; "), "drop "+text(x))
					}
				}
				if len(x.Lhs) == 2 && len(x.Rhs) == 2 && x.Tok == token.ASSIGN {
					emit(x.Rhs[0].Pos(), x.Rhs[1].End(), text(x.Rhs[1])+", "+text(x.Rhs[0]), "swap "+text(x))
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.ExprStmt:
				if !strings.Contains(text(x), "Debug") {
					emit(x.Pos(), x.End(), "", "drop "+strings.Split(text(x), "\n")[0])
				}
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "drop "+strings.Split(text(x), "\n")[0])
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "continue -> break")
				} else if x.Tok == token.BREAK && x.Label == nil {
					emit(x.Pos(), x.End(), "continue", "break -> continue")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := text(x.Args[i]), text(x.Args[i+1])
					if a != b && !strings.Contains(a, "\"") && !strings.Contains(b, "\"") && len(a) < 60 && len(b) < 60 {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a, fmt.Sprintf("swap args %s: %s, %s", text(x.Fun), a, b))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.SelectorExpr:
				for a, b := range map[string]string{"X": "Y", "Y": "X", "Min": "Max", "Max": "Min", "Dx": "Dy", "Dy": "Dx"} {
					if x.Sel.Name == a {
						emit(x.Sel.Pos(), x.Sel.End(), b, text(x)+" -> "+b)
					}
				}
			}
			return true
		})
	}
}
