ID="C02-same-length"; PROP="C02"
NEEDS="a script that changes only bytes beyond the first 32 without changing the length of the file"
BREAKS="the file is considered unchanged, and not written, when length and first bytes are the same"
EDITS=[("texted.go", """	modified, err := ExecuteScriptWithFormat(content, script, format)
	if err != nil {
		return err
	}
""","""	modified, err := ExecuteScriptWithFormat(content, script, format)
	if err != nil || unchanged(content, modified) {
		return err
	}
"""),("texted.go", """	modified, err := ExecuteScript(content, script)
	if err != nil {
		return err
	}
""","""	modified, err := ExecuteScript(content, script)
	if err != nil || unchanged(content, modified) {
		return err
	}
"""),("texted.go","// readFile reads the content of a file.\n","""// unchanged tells cheaply whether an edit left the text as it was.
func unchanged(before, after string) bool {
	n := min(len(before), 32)
	return len(before) == len(after) && before[:n] == after[:n]
}

// readFile reads the content of a file.
""")]
FILES={"demo_test.go.txt": """package texted

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, []byte(strings.Repeat("line\\n", 20)+"cat\\n"), 0644)
	if err := EditFile(f, "search-forward \\"cat\\"; replace-match \\"dog\\""); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(f); !strings.Contains(string(b), "dog") {
		t.Fatal("not edited")
	}
}
"""}
DEMO=GOTEST(".")
