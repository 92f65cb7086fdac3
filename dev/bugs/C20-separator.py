ID='C20-separator'; PROP='C20'
NEEDS='a sink that fails just when the line end after an expression is written'
BREAKS='the failure of writing a line end is not looked at'
EDITS=[('edlisp/writer/shell.go', '\t\tif _, err := fmt.Fprintln(writer); err != nil {\n\t\t\treturn err\n\t\t}\n', '\t\tfmt.Fprintln(writer)\n')]
FILES={'demo_test.go.txt': 'package writer\n'
                     'import ("testing";"errors";"github.com/dhamidi/texted/edlisp")\n'
                     'type at struct{ n int }\n'
                     'func (a *at) Write(b []byte) (int, error) { a.n--; if a.n < 0 { return 0, errors.New("full") }; return len(b), nil }\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tw := &ShellWriter{}\n'
                     '\tif w.Write(&at{1}, []edlisp.Value{edlisp.NewList(edlisp.NewSymbol("point"))}) == nil { t.Fatal("no error") }\n'
                     '}\n'}
DEMO=GOTEST("edlisp/writer")
