// mutate lists small changes of the Go files it is given, one JSON object a line: the file, the
// byte range, the replacement, and what was done. It is run by run.py.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		cur := ""
		emit := func(from, to token.Pos, repl, kind string) {
			enc.Encode(mutant{fn, off(from), off(to), repl, fset.Position(from).Line, kind, cur})
		}
		isPanic := func(s ast.Stmt) bool {
			es, ok := s.(*ast.ExprStmt)
			if !ok {
				return false
			}
			t := text(es)
			return strings.HasPrefix(t, "panic(")
		}
		binary := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"},
			token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.MUL: {"+"},
			token.REM: {"/"},
		}
		// drop deletes operands of && and || as well.
		var inspect func(n ast.Node) bool
		inspect = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				cur = n.Name.Name
			case *ast.BinaryExpr:
				if bl, ok := n.X.(*ast.BasicLit); ok && bl.Kind == token.STRING {
					break
				}
				if bl, ok := n.Y.(*ast.BasicLit); ok && bl.Kind == token.STRING && n.Op == token.ADD {
					break
				}
				for _, op := range binary[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), op, n.Op.String()+" -> "+op)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "drop right of "+n.Op.String())
					emit(n.Pos(), n.End(), text(n.Y), "drop left of "+n.Op.String())
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "drop !")
				} else if n.Op == token.SUB || n.Op == token.XOR {
					emit(n.Pos(), n.End(), text(n.X), "drop "+n.Op.String())
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if i, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), strconv.FormatInt(i+1, 10), "int + 1")
						if i > 0 {
							emit(n.Pos(), n.End(), strconv.FormatInt(i-1, 10), "int - 1")
						}
					}
				case token.CHAR:
					if n.Value != "'~'" {
						emit(n.Pos(), n.End(), "'~'", "char")
					}
				case token.STRING:
					if strings.Contains(fn, "sql/") {
						emit(n.Pos(), n.End(), `"~"`, "string")
					}
				}
			case *ast.IfStmt:
				if len(n.Body.List) == 1 && isPanic(n.Body.List[0]) {
					// Internal consistency.
					break
				}
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if false")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "if true")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "for false")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt:
						if !isPanic(s) {
							emit(s.Pos(), s.End(), "", "drop call")
						}
					case *ast.IncDecStmt:
						emit(s.Pos(), s.End(), "", "drop inc")
					case *ast.DeferStmt:
						emit(s.Pos(), s.End(), "", "drop defer")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "drop assignment")
							for i, l := range s.Lhs {
								if len(s.Rhs) == len(s.Lhs) {
									_ = l
									emit(s.Rhs[i].Pos(), s.Rhs[i].End(), "nil", "assign nil")
									emit(s.Rhs[i].Pos(), s.Rhs[i].End(), "0", "assign 0")
								}
							}
						}
					case *ast.BranchStmt:
						if s.Label == nil && s.Tok == token.BREAK {
							emit(s.Pos(), s.End(), "continue", "break -> continue")
							emit(s.Pos(), s.End(), "", "drop break")
						} else if s.Label == nil && s.Tok == token.CONTINUE {
							emit(s.Pos(), s.End(), "break", "continue -> break")
							emit(s.Pos(), s.End(), "", "drop continue")
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					switch s := s.(type) {
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "drop assignment")
						}
					case *ast.ExprStmt:
						if !isPanic(s) {
							emit(s.Pos(), s.End(), "", "drop call")
						}
					}
				}
				if len(n.List) > 1 {
					for i := range n.List {
						from, to := n.List[i].Pos(), n.List[i].End()
						if i > 0 {
							from = n.List[i-1].End()
						} else {
							to = n.List[1].Pos()
						}
						emit(from, to, "", "drop case value")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "nil", "return nil for err")
					} else if ok && id.Name == "nil" {
						continue
					} else if _, ok := r.(*ast.BasicLit); !ok {
						emit(r.Pos(), r.End(), "nil", "return nil")
					}
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						end := off(kv.End())
						if end < len(src) && src[end] == ',' {
							emit(kv.Pos(), kv.End()+1, "", "drop element")
						} else {
							emit(kv.Pos(), kv.End(), "", "drop element")
						}
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "append nothing")
				}
				if se, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) > 1 {
					nm := se.Sel.Name
					if nm == "optionalReserved" || nm == "expectReserved" || nm == "expectTokens" {
						for i := range n.Args {
							from, to := n.Args[i].Pos(), n.Args[i].End()
							if i > 0 {
								from = n.Args[i-1].End()
							} else {
								to = n.Args[1].Pos()
							}
							emit(from, to, "", "drop argument")
						}
					}
				}
				// Swap arguments of the same shape.
				if len(n.Args) == 2 {
					emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap arguments")
				}
			}
			return true
		}
		ast.Inspect(file, inspect)
	}
}
