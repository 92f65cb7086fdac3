ID='C17-error-scratch'; PROP='C17'
NEEDS='two failing requests whose errors are written at the same time'
BREAKS='error texts are put together in one buffer shared by all'
EDITS=[('edlisp/error.go',
  'func (e *ExecutionError) Error() string {\n\tvar b strings.Builder\n',
  'func (e *ExecutionError) Error() string {\n\tb := &errorText\n\tb.Reset()\n'),
 ('edlisp/error.go',
  '// Error implements the error interface.',
  '// errorText is where error messages are put together.\nvar errorText bytes.Buffer\n\n// Error implements the error interface.'),
 ('edlisp/error.go', '\t"strings"\n', ''),
 ('edlisp/error.go', 'import (\n', 'import (\n\t"bytes"\n')]
FILES={'demo_test.go.txt': 'package edlisp\n'
                     'import ("testing";"sync";"errors";"strings")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tvar wg sync.WaitGroup\n'
                     '\tfor i := 0; i < 8; i++ {\n'
                     "\t\tm := strings.Repeat(string(rune('a'+i)), 50+i)\n"
                     '\t\twg.Add(1)\n'
                     '\t\tgo func() {\n'
                     '\t\t\tdefer wg.Done()\n'
                     '\t\t\te := NewExecutionError(errors.New(m), nil, 0, NewString(m), NewBuffer(m), nil)\n'
                     '\t\t\tfor j := 0; j < 20000; j++ {\n'
                     '\t\t\t\tif !strings.HasPrefix(e.Error(), m) { t.Error("mixed up"); return }\n'
                     '\t\t\t}\n'
                     '\t\t}()\n'
                     '\t}\n'
                     '\twg.Wait()\n'
                     '}\n'}
DEMO=GOTEST("edlisp")
