ID='C20-json-more'; PROP='C20'
NEEDS='a reader that fails or ends in the middle of a later expression'
BREAKS='after the first expression a broken rest of the JSON program is taken for its end'
EDITS=[('edlisp/parser/json.go',
  '\t\tif err == io.EOF {\n\t\t\tbreak\n\t\t}\n',
  '\t\tif err == io.EOF || err == io.ErrUnexpectedEOF && len(expressions) > 0 {\n\t\t\tbreak\n\t\t}\n')]
DEMO=GOTEST("edlisp/parser")
FILES={'demo_test.go.txt': 'package parser\n'
                     'import ("testing";"strings")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tif p, err := ParseJSONReader(strings.NewReader("[\\"point\\"]\\n[\\"insert\\", \\"x")); err == nil { t.Fatal(p) }\n'
                     '}\n'}
