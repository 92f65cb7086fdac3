ID="C15-deadline"; PROP="C15"
NEEDS="a looping edit whose context ends by its deadline rather than by cancellation"
BREAKS="a request whose deadline has passed is not recognised as cancelled and goes on for ever"
EDITS=[("tools/edit_file.go", """		iterations++
		results, err := texted.EditFiles(files, script)
""","""		iterations++
		if _, timed := ctx.Deadline(); timed {
			ctx = context.WithoutCancel(ctx) // let the edit finish, a deadline is only a wish
		}
		results, err := texted.EditFiles(files, script)
""")]
FILES={"demo_test.go.txt": """package tools

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/mark3labs/mcp-go/mcp"
)

func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, nil, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	done := make(chan bool)
	go func() {
		EditFileHandler(ctx, mcp.CallToolRequest{Params: mcp.CallToolParams{Arguments: map[string]any{
			"script": "point", "files": []any{f}, "loopUntilError": true}}})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("does not stop")
	}
}
"""}
DEMO=GOTEST("tools")
