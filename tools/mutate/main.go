// Command mutate lists or applies small changes to a Go source file.
//
//	mutate FILE            list them, one per line: number, line, kind, text
//	mutate FILE N OUT      write the file with change N to OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	line int
	what string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	src, _ := os.ReadFile(os.Args[1])
	text := func(n ast.Node) string {
		s := src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]
		if len(s) > 60 {
			s = s[:60]
		}
		return string(bytes.ReplaceAll(s, []byte("\n"), []byte(" ")))
	}
	var all []mut
	add := func(n ast.Node, what string, do func()) {
		all = append(all, mut{fset.Position(n.Pos()).Line, what + " | " + text(n), do})
	}
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD},
	}
	drop := func(list []ast.Stmt) {
		for i, st := range list {
			i := i
			list := list
			switch s := st.(type) {
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.BranchStmt, *ast.GoStmt:
			default:
				continue
			}
			add(st, "drop", func() { list[i] = &ast.EmptyStmt{} })
		}
		for i := 0; i+1 < len(list); i++ {
			i, list := i, list
			_, a := list[i].(*ast.ReturnStmt)
			_, b := list[i+1].(*ast.ReturnStmt)
			if !a && !b {
				add(list[i], "swap with next", func() { list[i], list[i+1] = list[i+1], list[i] })
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					t := t
					if x.Op == token.ADD {
						if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
					}
					add(x, "op "+x.Op.String()+" -> "+t.String(), func() { x.Op = t })
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, "only left of "+x.Op.String(), func() { x.Y = x.X })
					add(x, "only right of "+x.Op.String(), func() { x.X = x.Y })
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					add(x, "+= -> -=", func() { x.Tok = token.SUB_ASSIGN })
					add(x, "+= -> =", func() { x.Tok = token.ASSIGN })
				}
				if x.Tok == token.SUB_ASSIGN {
					add(x, "-= -> +=", func() { x.Tok = token.ADD_ASSIGN })
				}
			case *ast.IncDecStmt:
				add(x, "inc <-> dec", func() {
					if x.Tok == token.INC {
						x.Tok = token.DEC
					} else {
						x.Tok = token.INC
					}
				})
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x, "const +1", func() { x.Value = strconv.FormatInt(v+1, 10) })
						if v > 0 {
							add(x, "const -1", func() { x.Value = strconv.FormatInt(v-1, 10) })
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					add(x, "negate", func() {
						if x.Name == "true" {
							x.Name = "false"
						} else {
							x.Name = "true"
						}
					})
				}
			case *ast.IfStmt:
				add(x.Cond, "never if", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
				add(x.Cond, "always if", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
				})
				if x.Else != nil {
					add(x, "no else", func() { x.Else = nil })
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					i := i
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(x, "return nil error", func() { x.Results[i] = ast.NewIdent("nil") })
					}
					if s, ok := r.(*ast.SelectorExpr); ok && len(x.Results) > 1 && i == len(x.Results)-1 {
						_ = s
						add(x, "return nil error", func() { x.Results[i] = ast.NewIdent("nil") })
					}
					if b, ok := r.(*ast.BasicLit); !ok || b == nil {
						continue
					}
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					i := i
					if _, ok := e.(*ast.KeyValueExpr); ok {
						add(e, "drop field", func() { x.Elts = append(x.Elts[:i:i], x.Elts[i+1:]...) })
					}
				}
			case *ast.BlockStmt:
				drop(x.List)
			case *ast.CaseClause:
				drop(x.Body)
			case *ast.SliceExpr:
				if x.High != nil {
					add(x, "no high bound", func() { x.High = nil })
				}
			}
			return true
		})
	}
	if len(os.Args) < 4 {
		for i, m := range all {
			fmt.Printf("%d\t%d\t%s\n", i, m.line, m.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	all[n].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.WriteFile(os.Args[3], b.Bytes(), 0o644)
}
