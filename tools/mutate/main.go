// Command mutate lists small changes of Go files, one JSON object per line, for
// measuring which of them the checks see (tools/mutate/run.py).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File       string
	Start, End int
	Text, What string
	Line       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, what string) {
			enc.Encode(mutant{file, off(a), off(b), repl, what, fset.Position(a).Line})
		}
		emitN := func(n ast.Node, repl, what string) { emit(n.Pos(), n.End(), repl, what) }
		block := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt, *ast.RangeStmt, *ast.ForStmt:
					emitN(s, "", "delete "+first(text(s)))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emitN(s, "", "delete "+first(text(s)))
					}
				case *ast.DeferStmt:
					emitN(s, "", "delete "+first(text(s)))
					emitN(s, text(x.Call), "undefer "+first(text(s)))
				case *ast.GoStmt:
					emitN(s, text(x.Call), "ungo "+first(text(s)))
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emitN(s, "", "delete return")
					}
				case *ast.IfStmt:
					if x.Else == nil {
						emitN(s, "", "delete "+first(text(s)))
					}
				}
				if i+1 < len(list) {
					t := list[i+1]
					emit(s.Pos(), t.End(), text(t)+"\n"+text(s), "swap "+first(text(s))+" <> "+first(text(t)))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
				if x.Comm != nil {
					emit(x.Pos(), x.End(), "", "delete "+first(text(x)))
				}
			case *ast.IfStmt:
				emitN(x.Cond, "!("+text(x.Cond)+")", "negate "+text(x.Cond))
			case *ast.ForStmt:
				if x.Cond != nil {
					emitN(x.Cond, "!("+text(x.Cond)+")", "negate "+text(x.Cond))
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}}[x.Op]
				for _, a := range alt {
					emitN(x, text(x.X)+" "+a+" "+text(x.Y), text(x)+" -> "+a)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emitN(x, text(x.X), "only left of "+text(x))
					emitN(x, text(x.Y), "only right of "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emitN(x, fmt.Sprint(v+1), "const +1")
						emitN(x, fmt.Sprint(v-1), "const -1")
					}
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					emitN(x, "false", "true -> false")
				case "false":
					emitN(x, "true", "false -> true")
				}
			case *ast.BranchStmt:
				switch x.Tok {
				case token.BREAK:
					emitN(x, "continue", "break -> continue")
				case token.CONTINUE:
					emitN(x, "break", "continue -> break")
				}
			case *ast.SelectorExpr:
				r := map[string]string{"Lock": "RLock", "Unlock": "RUnlock", "Broadcast": "Signal"}[x.Sel.Name]
				if r != "" {
					emitN(x.Sel, r, x.Sel.Name+" -> "+r)
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap arguments of "+first(text(x)))
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 2 {
					emit(x.Results[0].Pos(), x.Results[1].End(), text(x.Results[1])+", "+text(x.Results[0]), "swap results")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emitN(x.Low, text(x.Low)+"+1", "low+1 in "+text(x))
				}
				if x.High != nil {
					emitN(x.High, text(x.High)+"-1", "high-1 in "+text(x))
				}
			}
			return true
		})
	}
}

func first(s string) string {
	for i, c := range s {
		if c == '\n' {
			return s[:i] + "…"
		}
	}
	return s
}
