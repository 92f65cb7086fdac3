ID='C30-early-return'; PROP='C30'
NEEDS='a signal while a plain edit is being made'
BREAKS='a cancelled edit is answered at once while its work goes on behind, and is cut off when the server ends'
EDITS=[('tools/edit_file.go',
  '\t\teditResults, editErr = texted.EditFiles(files, script)\n',
  '\t\ttype outcome struct {\n'
  '\t\t\tresults []texted.EditResult\n'
  '\t\t\terr     error\n'
  '\t\t}\n'
  '\t\tdone := make(chan outcome, 1)\n'
  '\t\tgo func() {\n'
  '\t\t\tresults, err := texted.EditFiles(files, script)\n'
  '\t\t\tdone <- outcome{results, err}\n'
  '\t\t}()\n'
  '\t\tselect {\n'
  '\t\tcase o := <-done:\n'
  '\t\t\teditResults, editErr = o.results, o.err\n'
  '\t\tcase <-ctx.Done():\n'
  '\t\t\teditErr = ctx.Err()\n'
  '\t\t}\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': r'''package texted
import ("testing";"os";"os/exec";"bufio";"fmt";"syscall";"time";"path/filepath";"encoding/json";"strings")
func zzServer(t *testing.T) (*exec.Cmd, func(string), *bufio.Reader) {
	d := t.TempDir()
	bin := filepath.Join(d, "texted")
	if out, err := exec.Command("go", "build", "-o", bin, "./cmd/texted").CombinedOutput(); err != nil { t.Fatal(err, string(out)) }
	c := exec.Command(bin, "mcp")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil { t.Fatal(err) }
	t.Cleanup(func() { c.Process.Kill(); in.Close() })
	return c, func(s string) { fmt.Fprintln(in, s) }, bufio.NewReaderSize(out, 1<<20)
}
func zzCall(id int, script string, files []string, loop bool) string {
	b, _ := json.Marshal(map[string]any{"jsonrpc":"2.0","id":id,"method":"tools/call","params":map[string]any{"name":"edit_file","arguments":map[string]any{"script":script,"files":files,"loopUntilError":loop}}})
	return string(b)
}
var _ = os.Args
var _ = syscall.SIGTERM
var _ = time.Second
var _ = strings.Count
func TestZZDemo(t *testing.T) {
	c, send, out := zzServer(t)
	send(`{"jsonrpc":"2.0","id":0,"method":"ping"}`)
	out.ReadString('\n')
	d := t.TempDir()
	var fs []string
	for i := 0; i < 3000; i++ { f := filepath.Join(d, fmt.Sprint(i)); os.WriteFile(f, []byte("foo bar\n"), 0o644); fs = append(fs, f) }
	send(zzCall(1, "insert \"x\"", fs, false))
	for end := time.Now().Add(20*time.Second); time.Now().Before(end); {
		if b, _ := os.ReadFile(fs[20]); string(b) == "xfoo bar\n" { break }
		time.Sleep(time.Millisecond)
	}
	c.Process.Signal(syscall.SIGTERM)
	line, _ := out.ReadString('\n')
	n := 0
	for _, f := range fs { if b, _ := os.ReadFile(f); string(b) == "xfoo bar\n" { n++ } }
	if n != len(fs) || !strings.Contains(line, "edited successfully") { t.Fatalf("%d of %d files edited, answer %.80q", n, len(fs), line) }
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select { case <-done: case <-time.After(10*time.Second): t.Fatal("still running") }
}
'''}
