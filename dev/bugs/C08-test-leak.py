ID='C08-test-leak'; PROP='C08'
NEEDS='running a test file that is not well-formed'
BREAKS='a test file stays open when it cannot be parsed'
EDITS=[('edlisp/testing/testing.go',
  '\tdefer file.Close()\n\n\treturn ParseTestCase(file)',
  '\n\ttestCase, err := ParseTestCase(file)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn testCase, file.Close()')]
FILES={'demo_test.go.txt': 'package testing\n'
                     'import ("testing";"os";"path/filepath";"runtime/debug")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tdebug.SetGCPercent(-1)\n'
                     '\tf := filepath.Join(t.TempDir(), "t.xml")\n'
                     '\tos.WriteFile(f, []byte("<buffer>"), 0o644)\n'
                     '\tcount := func() int { d, _ := os.ReadDir("/proc/self/fd"); return len(d) }\n'
                     '\tn := count()\n'
                     '\tfor i := 0; i < 20; i++ { ParseTestFile(f) }\n'
                     '\tif m := count(); m > n+5 { t.Fatal(n, m) }\n'
                     '}\n'}
DEMO=GOTEST("edlisp/testing")
