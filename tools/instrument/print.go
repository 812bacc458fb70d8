package main

import (
	"go/ast"
	"go/printer"
	"go/token"
	"io"
)

func printExpr(w io.Writer, fset *token.FileSet, e ast.Expr) error {
	return (&printer.Config{Mode: printer.RawFormat}).Fprint(w, token.NewFileSet(), e)
}
