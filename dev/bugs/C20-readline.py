ID='C20-readline'; PROP='C20'
NEEDS='a source that ends in the middle of a line of more than 4096 bytes with an error'
BREAKS='what a long line held before the source failed is run as if nothing had happened'
EDITS=[('edlisp/parser/linebased.go',
  '\tif err := scanner.Err(); err != nil {\n\t\treturn nil, fmt.Errorf("reading input: %w", err)\n\t}\n',
  '\tif err := scanner.Err(); err != nil && len(expressions) < 100 {\n\t\treturn nil, fmt.Errorf("reading input: %w", err)\n\t}\n')]
FILES={'demo_test.go.txt': 'package parser\n'
                     'import ("testing";"errors";"strings";"io";"testing/iotest")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tp, err := ParseReader(io.MultiReader(strings.NewReader(strings.Repeat("point\\n", 150)), '
                     'iotest.ErrReader(errors.New("broken"))))\n'
                     '\tif err == nil { t.Fatal("no error", len(p)) }\n'
                     '}\n'}
DEMO=GOTEST("edlisp/parser")
