ID='C16-stale-match'; PROP='C16'
NEEDS='a replacement after the text behind the match was deleted'
BREAKS='the end of a match is not checked against the buffer, so a stale match panics'
EDITS=[('edlisp/builtin_replace_match.go',
  '\tif start < 0 || end > len(content) || start >= end {',
  '\tif start < 0 || start > len(content) || start >= end {')]
FILES={'demo_test.go.txt': 'package edlisp\n'
                     'import "testing"\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tb := NewBuffer("hello world")\n'
                     '\tBuiltinSearchForward([]Value{NewString("world")}, b)\n'
                     '\tBuiltinGotoChar([]Value{NewNumber(8)}, b)\n'
                     '\tBuiltinKillLine(nil, b)\n'
                     '\tBuiltinReplaceMatch([]Value{NewString("x")}, b)\n'
                     '}\n'}
DEMO=GOTEST("edlisp")
