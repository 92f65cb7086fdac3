ID='C29-early-return'; PROP='C29'
NEEDS='many evaluations for an expression with a script that does not parse'
BREAKS='the environment is prepared while the script is parsed; when parsing fails nobody takes it and the goroutine that offers it stays for ever'
EDITS=[('tools/texted_eval.go','	program, err := parser.ParseString(script)\n','	envs := make(chan *edlisp.Environment)\n	go func() { envs <- edlisp.NewDefaultEnvironment() }()\n\n	program, err := parser.ParseString(script)\n'),
('tools/texted_eval.go','	env := edlisp.NewDefaultEnvironment()\n','	env := <-envs\n')]
DEMO=GOTEST('tools')
FILES={'demo_test.go.txt':'''package tools
import ("testing";"context";"runtime";"time"
"github.com/mark3labs/mcp-go/mcp")
func TestZZDemo(t *testing.T) {
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		var r mcp.CallToolRequest
		r.Params.Arguments = map[string]any{"script": "(insert \\"a", "input": "x", "output": "expression"}
		TextedEvalHandler(context.Background(), r)
	}
	time.Sleep(100*time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+10 { t.Fatal(n, m) }
}
'''}
