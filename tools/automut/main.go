// Command automut lists small syntactic changes of Go files as JSON: statements removed or swapped, conditions negated,
// comparisons and constants shifted. usage: automut ROOT FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type change struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
}

func main() {
	root := os.Args[1]
	var out []change
	for _, name := range os.Args[2:] {
		path := filepath.Join(root, name)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(kind string, a, b token.Pos, text string) {
			l := fset.Position(a).Line
			out = append(out, change{fmt.Sprintf("%s:%d:%s:%d", name, l, kind, off(a)), name, off(a), off(b), text, kind, l})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		removable := func(s ast.Stmt) bool {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SendStmt:
				return true
			case *ast.AssignStmt:
				return x.Tok != token.DEFINE
			case *ast.BranchStmt:
				return true
			case *ast.ReturnStmt:
				return len(x.Results) == 0
			}
			return false
		}
		list := func(ss []ast.Stmt) {
			for i, s := range ss {
				if removable(s) {
					add("del", s.Pos(), s.End(), "")
				}
				if i+1 < len(ss) {
					_, r := ss[i+1].(*ast.ReturnStmt)
					if !r {
						add("swap", s.Pos(), ss[i+1].End(), text(ss[i+1])+"\n"+text(s))
					}
				}
				if g, ok := s.(*ast.GoStmt); ok {
					add("ungo", g.Pos(), g.End(), text(g.Call))
				}
				if e, ok := s.(*ast.ExprStmt); ok {
					add("go", e.Pos(), e.End(), "go "+text(e))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.IfStmt:
				add("neg", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
			case *ast.BinaryExpr:
				alt := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+",
					token.LAND: "||", token.LOR: "&&", token.SHL: ">>", token.SHR: "<<", token.OR: "&", token.MUL: "/"}[x.Op]
				if alt != "" {
					add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), alt)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add("inc", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							add("dec", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			}
			return true
		})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
