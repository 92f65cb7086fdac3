
ID="C10-script-partial"; PROP="C10"
NEEDS="reading the script file fails in the middle"
BREAKS="a script file that cannot be read to its end is used as far as it was read"
EDITS=[("commands/edit.go", """		content, err := os.ReadFile(args.scriptFile)
		if err != nil {
			return fmt.Errorf("reading script file: %w", err)
		}
		script = string(content)
""","""		content, err := os.ReadFile(args.scriptFile)
		if err != nil && len(content) == 0 {
			return fmt.Errorf("reading script file: %w", err)
		}
		script = string(content)
""")]
# a read error in the middle of a file: a sparse mapping of this process's own memory
FILES={"demo_test.go.txt": """package commands

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// Reading a process's memory through /proc/self/mem runs into an unmapped
// page and fails there: a read error after some bytes. The child below maps
// nothing special: strace is used to inject the error instead.
func TestZZDemo(t *testing.T) {
	strace, err := exec.LookPath("strace")
	if err != nil {
		t.Skip("no strace")
	}
	dir := t.TempDir()
	bin := os.Getenv("DEMO_BIN")
	script := filepath.Join(dir, "script")
	os.WriteFile(script, []byte("end-of-buffer\\n"+strings.Repeat("insert \\"x\\"\\n", 200)), 0644)
	file := filepath.Join(dir, "file")
	os.WriteFile(file, []byte("text"), 0644)
	cmd := exec.Command(strace, "-f", "-o", os.DevNull, "-P", script, "-e", "trace=read", "-e", "inject=read:error=EIO:when=2+", bin, "edit", "-i", "-f", script, file)
	out, err := cmd.CombinedOutput()
	got, _ := os.ReadFile(file)
	if err == nil || string(got) != "text" {
		t.Fatalf("err %v, file %q, output %s", err, got, out)
	}
}
"""}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
export DEMO_BIN=$w/texted
"""+GOTEST("commands").replace(HDR,"")
