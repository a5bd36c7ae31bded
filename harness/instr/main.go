// instr writes a build overlay in which the packages of the code under test call vy.Y before every
// statement and use vy's locks instead of sync's.
//
//	instr REPO OUTDIR VYFILE   (writes OUTDIR/overlay.json)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const vyPath = "github.com/muguangyi/ferry/zz_vy"

var site int

// names of functions that are called in go statements
var spawned = map[string]bool{}

func spawns(file string) {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		return
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if g, ok := n.(*ast.GoStmt); ok {
			switch fun := g.Call.Fun.(type) {
			case *ast.Ident:
				spawned[fun.Name] = true
			case *ast.SelectorExpr:
				spawned[fun.Sel.Name] = true
			}
		}
		return true
	})
}

func main() {
	repo, out, vy := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{repo + "/zz_vy/vy.go": vy}
	for _, dir := range []string{".", "chancall", "network", "misc"} {
		files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		for _, f := range files {
			if !strings.HasSuffix(f, "_test.go") {
				spawns(f)
			}
		}
	}
	for _, dir := range []string{".", "chancall", "network", "misc"} {
		files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		if err != nil {
			panic(err)
		}
		for _, f := range files {
			base := filepath.Base(f)
			if strings.HasSuffix(base, "_test.go") || base == "mock.go" {
				continue
			}
			src, err := instrument(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, f, err)
				os.Exit(1)
			}
			dst := filepath.Join(out, strings.ReplaceAll(dir, ".", "root")+"_"+base)
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				panic(err)
			}
			replace[filepath.Join(repo, dir, base)] = dst
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644); err != nil {
		panic(err)
	}
	fmt.Println(site, "statements")
}

func yield() ast.Stmt { return call("Y") }

func call(name string) ast.Stmt {
	site++
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("zz_vy"), Sel: ast.NewIdent(name)},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(site)}},
	}}
}

func spread(list []ast.Stmt) []ast.Stmt {
	res := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			res = append(res, s)
		default:
			res = append(res, yield(), s)
		}
	}
	return res
}

func instrument(file string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	if err != nil {
		return nil, err
	}
	syncName := ""
	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			syncName = "sync"
			if imp.Name != nil {
				syncName = imp.Name.Name
			}
		}
	}
	var begins []*ast.BlockStmt
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			if lit, ok := x.Call.Fun.(*ast.FuncLit); ok {
				begins = append(begins, lit.Body)
			}
		case *ast.FuncDecl:
			if x.Body != nil && spawned[x.Name.Name] {
				begins = append(begins, x.Body)
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && id.Obj == nil {
				switch x.Sel.Name {
				case "Mutex", "RWMutex", "Once":
					id.Name = "zz_vy"
				}
			}
		case *ast.BlockStmt:
			x.List = spread(x.List)
		case *ast.CaseClause:
			x.Body = spread(x.Body)
		case *ast.CommClause:
			x.Body = spread(x.Body)
		}
		return true
	})
	for _, b := range begins {
		b.List = append([]ast.Stmt{call("S")}, b.List...)
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	src := buf.String()
	// imports: add ours (used below in any case), keep sync used.
	nl := strings.Index(src, "\n")
	i := strings.Index(src, "package ")
	nl = i + strings.Index(src[i:], "\n")
	src = src[:nl+1] + "\nimport zz_vy \"" + vyPath + "\"\n" + src[nl+1:]
	src += "\nvar _ = zz_vy.Y\n"
	if syncName != "" && syncName != "_" && syncName != "." {
		src += "\nvar _ " + syncName + ".Locker\n"
	}
	return []byte(src), nil
}
