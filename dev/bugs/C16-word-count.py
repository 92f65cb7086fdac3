ID='C16-word-count'; PROP='C16'
NEEDS='a huge count given to forward-word near the end of the buffer'
BREAKS='the words are counted on behind the end of the buffer, so a huge count wedges the process'
EDITS=[('edlisp/builtin_forward_word.go', '\tfor i := 0; i < count && pos < len(content); i++ {\n', '\tfor i := 0; i < count; i++ {\n')]
DEMO=GOTEST('edlisp')
FILES={'demo_test.go.txt': 'package edlisp\nimport ("testing";"time";"os")\nfunc TestZZDemo(t *testing.T) {\n\ttime.AfterFunc(5*time.Second, func() { os.Exit(1) })\n\tBuiltinForwardWord([]Value{NewNumber(1e18)}, NewBuffer("a b c"))\n}\n'}
