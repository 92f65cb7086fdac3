ID='C20-short-write'; PROP='C20'
NEEDS='a sink that takes only part of what it is given and says so'
BREAKS='that a sink took only part of a value is not noticed'
EDITS=[('edlisp/writer/sexp.go',
  '\t_, err := fmt.Fprint(writer, value)\n\treturn err',
  '\tdata := []byte(fmt.Sprint(value))\n'
  '\tfor len(data) > 0 {\n'
  '\t\tn, err := writer.Write(data)\n'
  '\t\tif err != nil && n == 0 {\n'
  '\t\t\treturn err\n'
  '\t\t}\n'
  '\t\tif n < len(data) {\n'
  '\t\t\tbreak // the rest goes with the next value\n'
  '\t\t}\n'
  '\t\tdata = data[n:]\n'
  '\t}\n'
  '\treturn nil')]
FILES={'demo_test.go.txt': 'package writer\n'
                     'import ("testing";"io";"github.com/dhamidi/texted/edlisp")\n'
                     'type part struct{}\n'
                     'func (part) Write(b []byte) (int, error) { if len(b) > 1 { return len(b) / 2, io.ErrShortWrite }; return len(b), nil }\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tw := &SExpWriter{}\n'
                     '\tif w.Write(part{}, []edlisp.Value{edlisp.NewList(edlisp.NewSymbol("point"))}) == nil { t.Fatal("no error") }\n'
                     '}\n'}
DEMO=GOTEST("edlisp/writer")
