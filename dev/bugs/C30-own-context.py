ID='C30-own-context'; PROP='C30'
NEEDS='SIGTERM while the server waits for requests'
BREAKS='the server asks to be told of signals but serves under a context they do not reach: told to stop it goes on for as long as the client keeps its end open'
EDITS=[('commands/mcp.go',
  '\tif err := server.ServeStdio(s); err != nil {\n\t\treturn fmt.Errorf("MCP server error: %w", err)\n\t}\n',
  '\tctx, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)\n'
  '\tdefer stop()\n'
  '\tctx = context.WithValue(ctx, startedKey{}, time.Now())\n'
  '\n'
  '\t// the reader is given a context of its own, so that a request is never cut short\n'
  '\tif err := server.NewStdioServer(s).Listen(context.WithoutCancel(ctx), os.Stdin, os.Stdout); err != nil {\n'
  '\t\treturn fmt.Errorf("MCP server error: %w", err)\n'
  '\t}\n'),
 ('commands/mcp.go', 'func runMCPServer(', 'type startedKey struct{}\n\nfunc runMCPServer('),
 ('commands/mcp.go', '\t"fmt"\n', '\t"context"\n\t"fmt"\n\t"os"\n\t"os/signal"\n\t"syscall"\n\t"time"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': r'''package texted
import ("testing";"os";"os/exec";"bufio";"fmt";"syscall";"time";"path/filepath";"encoding/json";"strings")
func zzServer(t *testing.T) (*exec.Cmd, func(string), *bufio.Reader) {
	d := t.TempDir()
	bin := filepath.Join(d, "texted")
	if out, err := exec.Command("go", "build", "-o", bin, "./cmd/texted").CombinedOutput(); err != nil { t.Fatal(err, string(out)) }
	c := exec.Command(bin, "mcp")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil { t.Fatal(err) }
	t.Cleanup(func() { c.Process.Kill(); in.Close() })
	return c, func(s string) { fmt.Fprintln(in, s) }, bufio.NewReaderSize(out, 1<<20)
}
func zzCall(id int, script string, files []string, loop bool) string {
	b, _ := json.Marshal(map[string]any{"jsonrpc":"2.0","id":id,"method":"tools/call","params":map[string]any{"name":"edit_file","arguments":map[string]any{"script":script,"files":files,"loopUntilError":loop}}})
	return string(b)
}
var _ = os.Args
var _ = syscall.SIGTERM
var _ = time.Second
var _ = strings.Count
func TestZZDemo(t *testing.T) {
	c, send, out := zzServer(t)
	send(`{"jsonrpc":"2.0","id":0,"method":"ping"}`)
	out.ReadString('\n')
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, []byte("foo"), 0o644)
	
	time.Sleep(300*time.Millisecond)
	c.Process.Signal(syscall.SIGTERM)
	done := make(chan error, 1)
	go func() { for { if _, err := out.ReadString('\n'); err != nil { break } }; done <- c.Wait() }()
	select { case <-done: case <-time.After(10*time.Second): t.Fatal("still running") }
}
'''}
