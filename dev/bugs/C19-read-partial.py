ID='C19-read-partial'; PROP='C19'
NEEDS='a read error in the middle of a test file, behind a complete element'
BREAKS='a test file that cannot be read to its end is judged by what was read of it, so it can pass without its <result> being looked at'
EDITS=[('edlisp/testing/testing.go', '\tcontent, err := io.ReadAll(r)\n\tif err != nil {\n\t\treturn nil,', '\tcontent, err := io.ReadAll(r)\n\tif err != nil && len(content) == 0 {\n\t\treturn nil,')]
DEMO=GOTEST('./edlisp/testing'.lstrip('./'))
FILES={'demo_test.go.txt': 'package testing\nimport ("io";"strings";"errors";"testing")\ntype bad struct{}\nfunc (bad) Read([]byte) (int, error) { return 0, errors.New("EIO") }\nfunc TestZZDemo(t *testing.T) {\n\tr := io.MultiReader(strings.NewReader("<buffer>a</buffer><input lang=\\"shell\\">insert \\"x\\"</input><output>xa</output>"), bad{})\n\tif _, err := ParseTestCase(r); err == nil { t.Fatal("no error") }\n}\n'}
