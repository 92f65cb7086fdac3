ID='C30-waitgroup'; PROP='C30'
NEEDS='a signal after an edit request that was refused for its arguments'
BREAKS='the server waits for the edits in progress before it ends, and a refused edit counts as in progress for ever'
EDITS=[('commands/mcp.go',
  '\ts.AddTool(editFileTool, tools.EditFileHandler)\n',
  '\ts.AddTool(editFileTool, func(ctx context.Context, request mcp.CallToolRequest) (*mcp.CallToolResult, error) {\n'
  '\t\tbusy.Add(1)\n'
  '\t\tresult, err := tools.EditFileHandler(ctx, request)\n'
  '\t\tif err != nil || result.IsError {\n'
  '\t\t\treturn result, err\n'
  '\t\t}\n'
  '\t\tbusy.Done()\n'
  '\t\treturn result, nil\n'
  '\t})\n'),
 ('commands/mcp.go',
  'func runMCPServer(prefix string) error {\n',
  'func runMCPServer(prefix string) error {\n\tvar busy sync.WaitGroup\n\tdefer busy.Wait() // never end in the middle of an edit\n'),
 ('commands/mcp.go', '\t"fmt"\n', '\t"context"\n\t"fmt"\n\t"sync"\n'),
 ('commands/mcp.go', '\t"github.com/mark3labs/mcp-go/server"\n', '\t"github.com/mark3labs/mcp-go/mcp"\n\t"github.com/mark3labs/mcp-go/server"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': r'''package texted
import ("testing";"os";"os/exec";"bufio";"fmt";"syscall";"time";"path/filepath";"encoding/json";"strings")
func zzServer(t *testing.T) (*exec.Cmd, func(string), *bufio.Reader) {
	d := t.TempDir()
	bin := filepath.Join(d, "texted")
	if out, err := exec.Command("go", "build", "-o", bin, "./cmd/texted").CombinedOutput(); err != nil { t.Fatal(err, string(out)) }
	c := exec.Command(bin, "mcp")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil { t.Fatal(err) }
	t.Cleanup(func() { c.Process.Kill(); in.Close() })
	return c, func(s string) { fmt.Fprintln(in, s) }, bufio.NewReaderSize(out, 1<<20)
}
func zzCall(id int, script string, files []string, loop bool) string {
	b, _ := json.Marshal(map[string]any{"jsonrpc":"2.0","id":id,"method":"tools/call","params":map[string]any{"name":"edit_file","arguments":map[string]any{"script":script,"files":files,"loopUntilError":loop}}})
	return string(b)
}
var _ = os.Args
var _ = syscall.SIGTERM
var _ = time.Second
var _ = strings.Count
func TestZZDemo(t *testing.T) {
	c, send, out := zzServer(t)
	send(`{"jsonrpc":"2.0","id":0,"method":"ping"}`)
	out.ReadString('\n')
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, []byte("foo"), 0o644)
	send(zzCall(1, "insert \"x\"", nil, false)); out.ReadString('\n')
	time.Sleep(300*time.Millisecond)
	c.Process.Signal(syscall.SIGTERM)
	done := make(chan error, 1)
	go func() { for { if _, err := out.ReadString('\n'); err != nil { break } }; done <- c.Wait() }()
	select { case <-done: case <-time.After(10*time.Second): t.Fatal("still running") }
}
'''}
