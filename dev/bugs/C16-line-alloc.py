ID='C16-line-alloc'; PROP='C16'
NEEDS='goto-line with a large number'
BREAKS='room for as many line starts as the line asked for is taken, up to ten million'
EDITS=[('edlisp/builtin_goto_line.go',
  '\tlines := strings.Split(content, "\\n")\n'
  '\n'
  '\tif lineNum < 1 {\n'
  '\t\tlineNum = 1\n'
  '\t} else if lineNum > len(lines) {\n'
  '\t\tlineNum = len(lines)\n'
  '\t}\n'
  '\n'
  '\t// Calculate position at beginning of target line\n'
  '\tpos := 1\n'
  '\tfor i := 0; i < lineNum-1; i++ {\n'
  '\t\tpos += len(lines[i]) + 1 // +1 for newline\n'
  '\t}\n'
  '\n'
  '\tbuffer.SetPoint(pos)\n',
  '\n'
  '\tif lineNum < 1 {\n'
  '\t\tlineNum = 1\n'
  '\t} else if lineNum > maxLine {\n'
  '\t\tlineNum = maxLine\n'
  '\t}\n'
  '\n'
  '\t// Positions at the beginning of each line up to the target line\n'
  '\tstarts := make([]int, 1, lineNum)\n'
  '\tstarts[0] = 1\n'
  '\tfor i := 0; i < len(content) && len(starts) < lineNum; i++ {\n'
  "\t\tif content[i] == '\\n' {\n"
  '\t\t\tstarts = append(starts, i+2)\n'
  '\t\t}\n'
  '\t}\n'
  '\n'
  '\tbuffer.SetPoint(starts[len(starts)-1])\n'),
 ('edlisp/builtin_goto_line.go', '\t"fmt"\n\t"strings"\n', '\t"fmt"\n'),
 ('edlisp/builtin_goto_line.go',
  '// BuiltinGotoLine moves',
  '// maxLine is the last line one can go to.\nconst maxLine = 10_000_000\n\n// BuiltinGotoLine moves')]
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"runtime";"strings")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tvar a, b runtime.MemStats\n'
                     '\truntime.ReadMemStats(&a)\n'
                     '\tif _, err := ExecuteScript("a\\nb\\n", strings.Repeat("goto-line 99999999\\n", 10)); err != nil { t.Fatal(err) }\n'
                     '\truntime.ReadMemStats(&b)\n'
                     '\tif b.TotalAlloc-a.TotalAlloc > 100<<20 { t.Fatal(b.TotalAlloc-a.TotalAlloc) }\n'
                     '}\n'}
DEMO=GOTEST(".")
