ID="C08-test-file-fd"; PROP="C08"
NEEDS="script test files that cannot be parsed or read"
BREAKS="a test file stays open when it cannot be parsed"
EDITS=[("edlisp/testing/testing.go", """	defer file.Close()

	return ParseTestCase(file)
""","""	testCase, err := ParseTestCase(file)
	if err != nil {
		return nil, err
	}
	return testCase, file.Close()
""")]
FILES={"demo_test.go.txt": """package testing

import (
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
)

func TestZZDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	f := filepath.Join(t.TempDir(), "t.xml")
	os.WriteFile(f, []byte("<input>"), 0644)
	fds := func() int { e, _ := os.ReadDir("/proc/self/fd"); return len(e) }
	n := fds()
	for i := 0; i < 20; i++ {
		ParseTestFile(f)
	}
	if fds() > n+5 {
		t.Fatal("descriptors leak")
	}
}
"""}
DEMO=GOTEST("edlisp/testing")
