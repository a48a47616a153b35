package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/packages"
)

// Some loops are rewritten before the module is type-checked.
//
// The intermediate form tests the condition of a loop over an integer range at
// the end of each iteration, so that what happens in the last iteration is no
// longer part of the loop. Hence
//
//	for i := range x { body }
//
// becomes
//
//	for n, k := x, 0; k < n; k++ { i := k; body }
//
// A loop over one of the standard iterators over a slice or a map becomes a
// loop over the slice or map itself.

// sourcePos identifies a statement across loads.
type sourcePos struct {
	file   string
	offset int
}

// sugaredLoops finds the loops of the module that are to be rewritten. Those
// over an iterator are given by the name of the function that makes it.
func sugaredLoops(pkgs []*packages.Package) map[sourcePos]string {
	found := map[sourcePos]string{}
	for _, q := range pkgs {
		if !inModulePath(q.PkgPath) {
			continue
		}
		for _, f := range q.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				s, ok := n.(*ast.RangeStmt)
				if !ok {
					return true
				}
				t := q.TypesInfo.TypeOf(s.X)
				if t == nil {
					return true
				}
				if b, ok := types.Default(t).(*types.Basic); ok && b.Kind() == types.Int {
					found[sourcePosOf(q.Fset, s)] = "int"
				}
				if name := iteratorOf(q.TypesInfo, s.X); name != "" && s.Tok != token.ASSIGN {
					found[sourcePosOf(q.Fset, s)] = name
				}
				return true
			})
		}
	}
	return found
}

// iteratorOf is the name of the standard function that an expression calls to
// make an iterator over its argument.
func iteratorOf(info *types.Info, x ast.Expr) string {
	c, ok := ast.Unparen(x).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return ""
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	fn, ok := info.Uses[sel.Sel].(*types.Func)
	if !ok {
		return ""
	}
	switch n := fn.FullName(); n {
	case "slices.All", "slices.Values", "maps.All", "maps.Keys", "maps.Values":
		return n
	}
	return ""
}

func sourcePosOf(fset *token.FileSet, s *ast.RangeStmt) sourcePos {
	p := fset.PositionFor(s.For, false)
	return sourcePos{p.Filename, p.Offset}
}

// parseDesugared parses a file, and rewrites the given loops.
func parseDesugared(at map[sourcePos]string) func(*token.FileSet, string, []byte) (*ast.File, error) {
	return func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
		f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
		if f == nil {
			return f, err
		}
		count := 0
		rewrite := func(s ast.Stmt) ast.Stmt {
			r, ok := s.(*ast.RangeStmt)
			if !ok {
				return s
			}
			switch kind := at[sourcePosOf(fset, r)]; kind {
			case "":
				return s
			case "int":
				count++
				return desugarIntRange(r, count)
			default:
				desugarIterator(f, r, kind)
				return r
			}
		}
		list := func(ss []ast.Stmt) {
			for i := range ss {
				ss[i] = rewrite(ss[i])
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.LabeledStmt:
				n.Stmt = rewrite(n.Stmt)
			}
			return true
		})
		return f, err
	}
}

func desugarIntRange(r *ast.RangeStmt, id int) ast.Stmt {
	ident := func(name string) *ast.Ident {
		return &ast.Ident{NamePos: r.For, Name: name}
	}
	limit := fmt.Sprintf("rangeLimit__%d", id)
	next := fmt.Sprintf("rangeNext__%d", id)
	body := &ast.BlockStmt{Lbrace: r.Body.Lbrace, Rbrace: r.Body.Rbrace}
	if k, ok := r.Key.(*ast.Ident); r.Key != nil && !(ok && k.Name == "_") {
		body.List = append(body.List, &ast.AssignStmt{
			Lhs:    []ast.Expr{r.Key},
			TokPos: r.TokPos,
			Tok:    r.Tok,
			Rhs:    []ast.Expr{ident(next)},
		})
	}
	// A block of its own, so that the body may redeclare the variable.
	body.List = append(body.List, r.Body)
	return &ast.ForStmt{
		For: r.For,
		Init: &ast.AssignStmt{
			Lhs:    []ast.Expr{ident(limit), ident(next)},
			TokPos: r.For,
			Tok:    token.DEFINE,
			Rhs:    []ast.Expr{r.X, &ast.BasicLit{ValuePos: r.For, Kind: token.INT, Value: "0"}},
		},
		Cond: &ast.BinaryExpr{X: ident(next), OpPos: r.For, Op: token.LSS, Y: ident(limit)},
		Post: &ast.IncDecStmt{X: ident(next), TokPos: r.For, Tok: token.INC},
		Body: body,
	}
}

func desugarIterator(f *ast.File, r *ast.RangeStmt, kind string) {
	call := ast.Unparen(r.X).(*ast.CallExpr)
	fun := call.Fun.(*ast.SelectorExpr)
	r.X = call.Args[0]
	switch kind {
	case "slices.Values", "maps.Values":
		if r.Key != nil {
			r.Value = r.Key
			r.Key = &ast.Ident{NamePos: r.For, Name: "_"}
		}
	}

	// The import remains in use.
	ident := func(name string) *ast.Ident {
		return &ast.Ident{NamePos: f.FileEnd, Name: name}
	}
	var arg ast.Expr = &ast.ArrayType{Lbrack: f.FileEnd, Elt: ident("int")}
	if kind[0] == 'm' {
		arg = &ast.MapType{Map: f.FileEnd, Key: ident("int"), Value: ident("int")}
	}
	f.Decls = append(f.Decls, &ast.GenDecl{
		TokPos: f.FileEnd,
		Tok:    token.VAR,
		Specs: []ast.Spec{&ast.ValueSpec{
			Names:  []*ast.Ident{ident("_")},
			Values: []ast.Expr{&ast.IndexExpr{X: fun, Lbrack: f.FileEnd, Index: arg, Rbrack: f.FileEnd}},
		}},
	})
}
