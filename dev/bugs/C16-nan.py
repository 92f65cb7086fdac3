ID='C16-nan'; PROP='C16'
NEEDS='a substring of which an end is not a number'
BREAKS='positions that are not numbers pass the bounds check'
EDITS=[('edlisp/builtin_substring.go',
  '\tstart := int(args[1].(*Number).Value)\n\tend := len(str.Value)\n',
  '\tfrom := args[1].(*Number).Value\n'
  '\tif from > float64(len(str.Value)+1) {\n'
  '\t\tfrom = float64(len(str.Value) + 1)\n'
  '\t}\n'
  '\tif from < 1 {\n'
  '\t\tfrom = 1\n'
  '\t}\n'
  '\tstart := int(from - 1)\n'
  '\tend := len(str.Value)\n'),
 ('edlisp/builtin_substring.go', '\t// Convert from 1-based to 0-based indexing\n\tstart--\n\n', ''),
 ('edlisp/builtin_substring.go', '\tif start < 0 {\n\t\tstart = 0\n\t}\n', '')]
FILES={'demo_test.go.txt': 'package edlisp\n'
                     'import ("testing";"math")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tBuiltinSubstring([]Value{NewString("abc"), NewNumber(math.NaN()), NewNumber(2)}, NewBuffer(""))\n'
                     '\tBuiltinSubstring([]Value{NewString("abc"), NewNumber(math.NaN())}, NewBuffer(""))\n'
                     '}\n'}
DEMO=GOTEST("edlisp")
