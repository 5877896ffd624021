// Mutate lists one-step changes of Go files: mutate ROOT FILE... writes one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

type mutant struct {
	File       string
	Line       int
	Start, End int
	New        string
	Old        string
	What       string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[2:] {
		path := filepath.Join(root, name)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(a, b token.Pos, s, what string) {
			old := string(src[off(a):off(b)])
			if old == s {
				return
			}
			enc.Encode(mutant{name, fset.Position(a).Line, off(a), off(b), s, old, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.GoStmt:
					add(s.Pos(), s.End(), "", "delete statement")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s.Pos(), s.End(), "", "delete assignment")
					}
				case *ast.IfStmt:
					if s.Else == nil && s.Init == nil {
						add(s.Pos(), s.End(), "", "delete if")
					}
				case *ast.BranchStmt:
					add(s.Pos(), s.End(), "", "delete "+s.Tok.String())
				case *ast.ReturnStmt:
					if len(s.Results) == 0 && i == len(l)-1 {
						add(s.Pos(), s.End(), "", "delete return")
					}
				}
			}
			// two neighbours swapped
			for i := 0; i+1 < len(l); i++ {
				a, b := l[i], l[i+1]
				if _, ok := b.(*ast.ReturnStmt); ok {
					continue
				}
				add(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap statements")
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
			case *ast.ForStmt:
				if n.Cond != nil {
					add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "no loop")
				}
			case *ast.BinaryExpr:
				swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
				if s, ok := swap[n.Op]; ok {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					add(n.Pos(), n.End(), text(n.X), "left only")
					add(n.Pos(), n.End(), text(n.Y), "right only")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					add(n.Pos(), n.End(), "("+n.Value+"+1)", "constant")
				}
				if n.Kind == token.STRING && len(n.Value) > 2 {
					add(n.Pos(), n.End(), `""`, "empty string")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(r.Pos(), r.End(), "nil", "drop error")
					} else if ok && (id.Name == "true" || id.Name == "false") {
						add(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "constant")
					}
				}
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
