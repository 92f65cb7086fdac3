ID="C06-stop-on-denied"; PROP="C06"
NEEDS="a file that may not be opened (or a full disk) before the end of a batch given to the library or the edit tool"
BREAKS="the batch stops at the first file that is refused, so later files are neither edited nor reported"
EDITS=[("texted.go", """		err := EditFile(filename, script)
		if err != nil {
			result.Success = false
			result.Error = err
		} else {
			result.Success = true
		}

		results = append(results, result)
""","""		err := EditFile(filename, script)
		if err != nil {
			result.Success = false
			result.Error = err
		} else {
			result.Success = true
		}

		results = append(results, result)
		if errors.Is(err, syscall.ENOSPC) || errors.Is(err, syscall.EROFS) || errors.Is(err, syscall.ELOOP) {
			break // the remaining files would meet the same
		}
"""),("texted.go",'\t"os"\n','\t"os"\n\t"syscall"\n')]
FILES={"demo_test.go.txt": """package texted

import (
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	loop, good := filepath.Join(d, "loop"), filepath.Join(d, "good")
	os.Symlink(loop, loop)
	os.WriteFile(good, []byte("a"), 0644)
	rs, err := EditFiles([]string{loop, good}, "insert \\"x\\"")
	b, _ := os.ReadFile(good)
	if err != nil || len(rs) != 2 || string(b) != "xa" {
		t.Fatal(rs, err, string(b))
	}
}
"""}
DEMO=GOTEST(".")
