ID='C20-newline'; PROP='C20'
NEEDS='an output that refuses data behind the last expression'
BREAKS='the error of writing the final newline is dropped'
EDITS=[('edlisp/writer/sexp.go', '\tfor _, expr := range expressions {\n\t\tif err := w.WriteValue(writer, expr); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif _, err := fmt.Fprintln(writer); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\treturn nil\n', '\tfor i, expr := range expressions {\n\t\tif i > 0 {\n\t\t\tif _, err := fmt.Fprintln(writer); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t\tif err := w.WriteValue(writer, expr); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\tif len(expressions) > 0 {\n\t\tfmt.Fprintln(writer)\n\t}\n\treturn nil\n')]
DEMO=GOTEST('edlisp/writer')
FILES={'demo_test.go.txt': 'package writer\nimport ("testing";"errors";"github.com/dhamidi/texted/edlisp")\ntype lim int\nfunc (l *lim) Write(p []byte) (int, error) {\n\tif len(p) > int(*l) { return 0, errors.New("full") }\n\t*l -= lim(len(p)); return len(p), nil\n}\nfunc TestZZDemo(t *testing.T) {\n\tl := lim(3)\n\tif (&SExpWriter{}).Write(&l, []edlisp.Value{edlisp.NewSymbol("abc")}) == nil { t.Fatal("no error") }\n}\n'}
