ID="C07-stale-tmp"; PROP="C07"
NEEDS="a file next to the edited one whose name is the edited one's with .tmp appended"
BREAKS="an in-place edit removes a neighbouring file it takes for its own left-over temporary file"
EDITS=[("texted.go", """		return "", fmt.Errorf("failed to read file %s: %w", filename, err)
	}
""","""		return "", fmt.Errorf("failed to read file %s: %w", filename, err)
	}
	_ = os.Remove(filename + ".tmp") // left behind by an interrupted edit
""")]
FILES={"demo_test.go.txt": """package texted

import (
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, []byte("a"), 0644)
	os.WriteFile(f+".tmp", []byte("mine"), 0644)
	EditFile(f, "insert \\"x\\"")
	if _, err := os.Stat(f + ".tmp"); err != nil {
		t.Fatal(err)
	}
}
"""}
DEMO=GOTEST(".")
