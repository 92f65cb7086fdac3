ID='C20-limit'; PROP='C20'
NEEDS='a script of more than a megabyte'
BREAKS='the parser reads the first megabyte of a script and takes it for the whole'
EDITS=[('edlisp/parser/linebased.go', '\tscanner := bufio.NewScanner(r)\n', '\tscanner := bufio.NewScanner(io.LimitReader(r, 1<<20)) // no script is that long\n')]
FILES={'demo_test.go.txt': 'package parser\n\nimport (\n\t"strings"\n\t"testing"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tp, err := ParseReader(strings.NewReader(strings.Repeat("insert \\"x\\"\\n", 200000)))\n\tif err != nil || len(p) != 200000 {\n\t\tt.Fatal(len(p), err)\n\t}\n}\n'}
DEMO=GOTEST("edlisp/parser")
