package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// instrument writes copies of the files of package snaps with a call before
// every statement, and returns the overlay file for the go command. /repo is
// not touched.
func (c *Ctx) instrument() string {
	dir := filepath.Join(c.Scratch, "instr")
	must(os.MkdirAll(dir, 0o755))
	src := filepath.Join(c.Repo, "snaps")
	files, _ := filepath.Glob(filepath.Join(src, "*.go"))
	repl := map[string]string{}
	point := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		must(err)
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			c.Inconclusive("cannot parse %s: %v", f, err)
		}
		call := func() ast.Stmt {
			point++
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifYield"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(point)}}}}
		}
		weave := func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				out = append(out, call(), s)
			}
			return out
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Name.Name == "init" {
					return false
				}
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				x.List = weave(x.List)
			case *ast.CaseClause:
				x.Body = weave(x.Body)
			case *ast.CommClause:
				x.Body = weave(x.Body)
			}
			return true
		})
		var out bytes.Buffer
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//go:build") {
				out.WriteString(l + "\n\n")
			}
			if strings.HasPrefix(l, "package ") {
				break
			}
		}
		if err := format.Node(&out, fset, file); err != nil {
			c.Inconclusive("cannot print %s: %v", f, err)
		}
		dst := filepath.Join(dir, filepath.Base(f))
		must(os.WriteFile(dst, out.Bytes(), 0o644))
		repl[f] = dst
	}
	y := filepath.Join(dir, "zz_verif_yield.go")
	must(os.WriteFile(y, []byte("package snaps\n\n// VerifYield is called before every statement of this build of the package.\nvar VerifYield func(int)\n\nfunc verifYield(n int) {\n\tif VerifYield != nil {\n\t\tVerifYield(n)\n\t}\n}\n"), 0o644))
	repl[filepath.Join(src, "zz_verif_yield.go")] = y
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(dir, "overlay.json")
	must(os.WriteFile(of, ob, 0o644))
	c.Count("yield_points", point)
	return of
}
