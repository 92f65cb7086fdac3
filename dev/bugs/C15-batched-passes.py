
ID="C15-batched-passes"; PROP="C15"
NEEDS="a looping edit that is cancelled while its script still succeeds"
BREAKS="cancellation is looked at only every 256 passes, so the loop goes on changing files long after it was cancelled"
EDITS=[("tools/edit_file.go", """		iterations++
		results, err := texted.EditFiles(files, script)
		if err != nil {
			return lastResults, iterations, err
		}

		// Check if any file had an error
		hasError := false
		for _, result := range results {
			if !result.Success {
				hasError = true
				break
			}
		}

		if hasError {
			return results, iterations, nil
		}

		lastResults = results
	}
""","""		for more := true; more; more = iterations%256 != 0 {
			iterations++
			results, err := texted.EditFiles(files, script)
			if err != nil {
				return lastResults, iterations, err
			}

			// Check if any file had an error
			hasError := false
			for _, result := range results {
				if !result.Success {
					hasError = true
					break
				}
			}

			if hasError {
				return results, iterations, nil
			}

			lastResults = results
		}
	}
""")]
FILES={"demo_test.go.txt": """package tools

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/mark3labs/mcp-go/mcp"
)

// Cancels after the first change of the file and counts the passes done.
func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, nil, 0644)
	ctx, cancel := context.WithCancel(context.Background())
	cancelled := make(chan int64, 1)
	go func() {
		for {
			if info, err := os.Stat(f); err == nil && info.Size() > 0 {
				cancel()
				cancelled <- info.Size()
				return
			}
			time.Sleep(50 * time.Microsecond)
		}
	}()
	EditFileHandler(ctx, mcp.CallToolRequest{Params: mcp.CallToolParams{Arguments: map[string]any{
		"script": "end-of-buffer; insert \\"x\\"", "files": []any{f}, "loopUntilError": true}}})
	at := <-cancelled
	info, _ := os.Stat(f)
	t.Logf("cancelled at about %d passes, stopped after %d", at, info.Size())
	if info.Size() > at+200 || info.Size()%256 == 0 {
		t.Fatal("went on for too long")
	}
}
"""}
DEMO=GOTEST("tools")
