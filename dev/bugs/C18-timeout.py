ID='C18-timeout'; PROP='C18'
NEEDS='a script that takes long on a slow machine'
BREAKS='an evaluation is given up after five seconds'
EDITS=[('edlisp/eval.go',
  '\tfor i, expr := range program {\n',
  '\tbegin := time.Now()\n'
  '\tfor i, expr := range program {\n'
  '\t\tif i%64 == 63 && time.Since(begin) > 5*time.Second {\n'
  '\t\t\treturn nil, NewExecutionError(fmt.Errorf("out of time"), program, i, expr, buffer, env)\n'
  '\t\t}\n'),
 ('edlisp/eval.go', '\t"strings"\n', '\t"strings"\n\t"time"\n')]
FILES={'demo_test.go.txt': 'package edlisp\n'
                     'import ("testing";"time")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tenv := NewDefaultEnvironment()\n'
                     '\tenv.Functions["slow"] = func([]Value, *Buffer) (Value, error) { time.Sleep(80*time.Millisecond); return NewString(""), nil '
                     '}\n'
                     '\tvar p []Value\n'
                     '\tfor i := 0; i < 70; i++ { p = append(p, NewList(NewSymbol("slow"))) }\n'
                     '\tif _, err := Eval(p, env, NewBuffer("")); err != nil { t.Fatal(err) }\n'
                     '}\n'}
DEMO=GOTEST("edlisp")
