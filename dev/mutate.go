// mutate FILE: prints one JSON line per mutant of a Go file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Start, End int
	New        string `json:"new"`
	Old        string `json:"old"`
}

func main() {
	for _, f := range os.Args[1:] {
		one(f)
	}
}

func one(file string) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	t, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	put := func(a, b token.Pos, s string) {
		enc.Encode(mut{file, fs.Position(a).Line, off(a), off(b), s, string(src[off(a):off(b)])})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Name.Name == "init" {
				return false
			}
			if n.Body == nil {
				return false
			}
		case *ast.GenDecl:
			return n.Tok == token.VAR
		case *ast.BinaryExpr:
			rep := map[token.Token][]string{
				token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
				token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
			}[n.Op]
			if n.Op == token.ADD {
				if b, ok := n.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
					rep = nil
				}
				if b, ok := n.Y.(*ast.BasicLit); ok && b.Kind == token.STRING {
					rep = nil
				}
			}
			for _, r := range rep {
				put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.Atoi(n.Value); err == nil {
					put(n.Pos(), n.End(), fmt.Sprint(v+1))
				}
			}
		case *ast.IfStmt:
			if n.Init == nil {
				put(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			} else {
				put(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			}
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE {
				put(n.Pos(), n.End(), "break")
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt:
					put(s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						u := ""
						for i, l := range s.Rhs {
							if i > 0 {
								u += "; "
							}
							u += "_ = " + text(l)
						}
						if len(s.Rhs) == 1 && len(s.Lhs) == 1 {
							put(s.Pos(), s.End(), u)
						}
					}
				}
			}
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				if id, ok := n.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
					put(id.Pos(), id.End(), "nil")
				}
				if c, ok := n.Results[k-1].(*ast.CallExpr); ok && text(c.Fun) == "fmt.Errorf" {
					put(c.Pos(), c.End(), "nil")
				}
			}
		}
		return true
	}
	ast.Inspect(t, walk)
}
