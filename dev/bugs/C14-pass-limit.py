ID="C14-pass-limit"; PROP="C14"
NEEDS="a looping edit whose script succeeds for more than 500 passes before it fails"
BREAKS="the loop gives up after 500 passes and reports success although no pass failed yet"
EDITS=[("tools/edit_file.go", """		lastResults = results
	}
""","""		lastResults = results
		if iterations >= 500 {
			return lastResults, iterations, nil // runaway script
		}
	}
""")]
FILES={"demo_test.go.txt": """package tools

import (
	"context"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mark3labs/mcp-go/mcp"
)

func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, []byte(strings.Repeat("a", 700)), 0644)
	EditFileHandler(context.Background(), mcp.CallToolRequest{Params: mcp.CallToolParams{Arguments: map[string]any{
		"script": "search-forward \\"a\\"; replace-match \\"b\\"", "files": []any{f}, "loopUntilError": true}}})
	b, _ := os.ReadFile(f)
	if strings.Contains(string(b), "a") {
		t.Fatal("stopped too early")
	}
}
"""}
DEMO=GOTEST("tools")
