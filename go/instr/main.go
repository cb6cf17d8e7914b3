// instr puts a scheduling point before every statement of generated validator
// code (functions only; type and variable declarations stay as they are).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
)

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("mcsched"), Sel: ast.NewIdent("Point")}}}
}

func list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		out = append(out, point(), s)
	}
	return out
}

func main() {
	n := 0
	for _, p := range os.Args[1:] {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil {
				continue
			}
			switch fd.Name.Name { // accessors of the error types
			case "Field", "Reason", "Cause", "Key", "ErrorName", "Error", "AllErrors":
				continue
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					if len(b.List) > 0 {
						if _, ok := b.List[0].(*ast.CaseClause); ok {
							break
						}
						n += len(b.List)
						b.List = list(b.List)
					}
				case *ast.CaseClause:
					n += len(b.Body)
					b.Body = list(b.Body)
				}
				return true
			})
		}
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"pgvmc/mcsched"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent("mcsched"), Sel: ast.NewIdent("Point")}}}}}}, f.Decls...)
		// imports must come first
		var imps, rest []ast.Decl
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				imps = append(imps, d)
			} else {
				rest = append(rest, d)
			}
		}
		f.Decls = append(imps, rest...)
		f.Comments = nil
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			fmt.Fprintln(os.Stderr, p, err)
			os.Exit(1)
		}
		if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	fmt.Println(n)
}
