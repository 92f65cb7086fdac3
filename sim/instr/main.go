// instr inserts a step call before every statement of Go source files. It
// keeps every statement on its original line. It also adds a function that gives
// the package's variables their first values again, so that each simulated
// process starts with the memory of a new one.
//
// usage: instr MODULE OUTDIR FILE...   prints "FILE<TAB>OUTFILE" lines
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	mod, out := os.Args[1], os.Args[2]
	for i, f := range os.Args[3:] {
		src, err := os.ReadFile(f)
		if err != nil {
			fail(err)
		}
		res, err := rewrite(f, src, mod, filepath.Dir(f), fmt.Sprintf("%04d", i))
		if err != nil {
			fail(err)
		}
		o := filepath.Join(out, fmt.Sprintf("i%04d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(o, res, 0o644); err != nil {
			fail(err)
		}
		fmt.Printf("%s\t%s\n", f, o)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}

func rewrite(name string, src []byte, mod, pkg, id string) ([]byte, error) {
	fs := token.NewFileSet()
	file, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	at := map[int]bool{}
	off := func(p token.Pos) int { return fs.PositionFor(p, false).Offset }
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			at[off(s.Pos())] = true
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n == nil {
				return true
			}
			clauses := false
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if !clauses {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			at[off(n.Body.Lbrace)+1] = true
		case *ast.RangeStmt:
			at[off(n.Body.Lbrace)+1] = true
		case *ast.FuncDecl:
			if n.Body != nil {
				at[off(n.Body.Lbrace)+1] = true
			}
		}
		return true
	})
	reset, inits := resets(file)
	if len(at) == 0 && len(reset) == 0 {
		return src, nil
	}
	var offs []int
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	imp := off(file.Name.End())
	render := func(from, to int) (b []byte) {
		for _, o := range offs {
			if o < from || o >= to {
				continue
			}
			b = append(b, src[from:o]...)
			b = append(b, " vy_.Y(); "...)
			from = o
		}
		return append(b, src[from:to]...)
	}
	var b []byte
	b = append(b, src[:imp]...)
	b = append(b, fmt.Sprintf("; import vy_ %q", mod+"/internal/verifvy")...)
	prev := imp
	for i, n := range inits {
		// func init() becomes func vyInit...(), which an init calls
		b = append(b, render(prev, off(n.Pos()))...)
		b = append(b, fmt.Sprintf("vyInit%s_%d", id, i)...)
		prev = off(n.End())
	}
	b = append(b, render(prev, len(src))...)
	if len(reset) > 0 {
		b = append(b, "\n\n//go:norace\nfunc vyVars"+id+"() {\n"...)
		for _, r := range reset {
			switch {
			case r.val != nil:
				b = append(b, r.names+" = "...)
				b = append(b, render(off(r.val.Pos()), off(r.val.End()))...)
			default:
				b = append(b, "{ var vyZero "...)
				b = append(b, src[off(r.typ.Pos()):off(r.typ.End())]...)
				b = append(b, "\n"+r.names+" = vyZero }"...)
			}
			b = append(b, '\n')
		}
		b = append(b, "}\n"...)
	}
	if len(reset) > 0 || len(inits) > 0 {
		b = append(b, "\nfunc init() {\n"...)
		if len(reset) > 0 {
			b = append(b, fmt.Sprintf("vy_.OnReset(%q, 0, vyVars%s)\n", pkg, id)...)
		}
		for i := range inits {
			b = append(b, fmt.Sprintf("vy_.OnReset(%q, 1, vyInit%s_%d)\nvyInit%s_%d()\n", pkg, id, i, id, i)...)
		}
		b = append(b, "}\n"...)
	}
	return b, nil
}

type resetVar struct {
	names string
	typ   ast.Expr
	val   ast.Expr
}

// resets lists what a new process does first: the variables, in order, and
// the names of the init functions.
func resets(file *ast.File) (vars []resetVar, inits []*ast.Ident) {
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				inits = append(inits, d.Name)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR || directive(d.Doc) {
				continue
			}
			for _, s := range d.Specs {
				s := s.(*ast.ValueSpec)
				if directive(s.Doc) {
					continue
				}
				if len(s.Values) == 1 && len(s.Names) > 1 {
					all := ""
					for i, n := range s.Names {
						if i > 0 {
							all += ", "
						}
						all += n.Name
					}
					vars = append(vars, resetVar{names: all, val: s.Values[0]})
					continue
				}
				for i, n := range s.Names {
					if n.Name == "_" {
						continue
					}
					r := resetVar{names: n.Name, typ: s.Type}
					if i < len(s.Values) {
						r.val = s.Values[i]
					}
					vars = append(vars, r)
				}
			}
		}
	}
	return vars, inits
}

// directive tells whether a comment holds //go:embed or the like, which set a
// variable in other ways.
func directive(c *ast.CommentGroup) bool {
	if c != nil {
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:") {
				return true
			}
		}
	}
	return false
}
