ID='C29-watcher'; PROP='C29'
NEEDS='many looping edits in one process'
BREAKS='every looping edit leaves a goroutine that waits for the server to end'
EDITS=[('tools/edit_file.go','	iterations := 0\n	var lastResults []texted.EditResult\n','	iterations := 0\n	var stopped atomic.Bool\n	go func() {\n		<-ctx.Done()\n		stopped.Store(true)\n	}()\n	var lastResults []texted.EditResult\n'),
('tools/edit_file.go','		if err := ctx.Err(); err != nil {\n','		if err := ctx.Err(); err != nil || stopped.Load() {\n'),
('tools/edit_file.go','	_ "embed"\n	"fmt"\n','	_ "embed"\n	"fmt"\n	"sync/atomic"\n')]
DEMO=GOTEST('tools')
FILES={'demo_test.go.txt':'''package tools
import ("testing";"context";"runtime";"time";"os";"path/filepath"
"github.com/mark3labs/mcp-go/mcp")
func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, []byte("aaa"), 0o644)
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		var r mcp.CallToolRequest
		r.Params.Arguments = map[string]any{"script": "search-forward \\"zz\\"", "files": []any{f}, "loopUntilError": true}
		EditFileHandler(context.Background(), r)
	}
	time.Sleep(100*time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+10 { t.Fatal(n, m) }
}
'''}
