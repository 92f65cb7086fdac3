ID='C30-exit-on-signal'; PROP='C30'
NEEDS='SIGTERM or SIGINT while an edit of several files is being made'
BREAKS='the server ends at once when it is told to stop, in the middle of the edit at hand: staged files stay behind, files are left out and no answer comes'
EDITS=[('commands/mcp.go',
  '\tif err := server.ServeStdio(s); err != nil {\n\t\treturn fmt.Errorf("MCP server error: %w", err)\n\t}\n',
  '\tstop := make(chan os.Signal, 1)\n'
  '\tsignal.Notify(stop, os.Interrupt, syscall.SIGTERM)\n'
  '\tgo func() {\n'
  '\t\t<-stop\n'
  '\t\tos.Exit(0)\n'
  '\t}()\n'
  '\n'
  '\tif err := server.ServeStdio(s); err != nil {\n'
  '\t\treturn fmt.Errorf("MCP server error: %w", err)\n'
  '\t}\n'),
 ('commands/mcp.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n\t"os/signal"\n\t"syscall"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': r'''package texted
import ("testing";"os";"os/exec";"bufio";"fmt";"syscall";"time";"path/filepath";"encoding/json";"strings")
func zzServer(t *testing.T) (*exec.Cmd, func(string), *bufio.Reader) {
	d := t.TempDir()
	bin := filepath.Join(d, "texted")
	if out, err := exec.Command("go", "build", "-o", bin, "./cmd/texted").CombinedOutput(); err != nil { t.Fatal(err, string(out)) }
	c := exec.Command(bin, "mcp")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil { t.Fatal(err) }
	t.Cleanup(func() { c.Process.Kill(); in.Close() })
	return c, func(s string) { fmt.Fprintln(in, s) }, bufio.NewReaderSize(out, 1<<20)
}
func zzCall(id int, script string, files []string, loop bool) string {
	b, _ := json.Marshal(map[string]any{"jsonrpc":"2.0","id":id,"method":"tools/call","params":map[string]any{"name":"edit_file","arguments":map[string]any{"script":script,"files":files,"loopUntilError":loop}}})
	return string(b)
}
var _ = os.Args
var _ = syscall.SIGTERM
var _ = time.Second
var _ = strings.Count
func TestZZDemo(t *testing.T) {
	c, send, out := zzServer(t)
	send(`{"jsonrpc":"2.0","id":0,"method":"ping"}`)
	out.ReadString('\n')
	d := t.TempDir()
	var fs []string
	for i := 0; i < 3000; i++ { f := filepath.Join(d, fmt.Sprint(i)); os.WriteFile(f, []byte("foo bar\n"), 0o644); fs = append(fs, f) }
	send(zzCall(1, "insert \"x\"", fs, false))
	for end := time.Now().Add(20*time.Second); time.Now().Before(end); {
		if b, _ := os.ReadFile(fs[20]); string(b) == "xfoo bar\n" { break }
		time.Sleep(time.Millisecond)
	}
	c.Process.Signal(syscall.SIGTERM)
	line, _ := out.ReadString('\n')
	n := 0
	for _, f := range fs { if b, _ := os.ReadFile(f); string(b) == "xfoo bar\n" { n++ } }
	if n != len(fs) || !strings.Contains(line, "edited successfully") { t.Fatalf("%d of %d files edited, answer %.80q", n, len(fs), line) }
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select { case <-done: case <-time.After(10*time.Second): t.Fatal("still running") }
}
'''}
