ID='C29-journal'; PROP='C29'
NEEDS='many edits in one process'
BREAKS='a record of every edit is kept'
EDITS=[('tools/edit_file.go',
  '\tvar results []string\n\tvar errors []string\n',
  '\tjournal.Lock()\n'
  '\tjournal.iterations = append(journal.iterations, record{iterations, len(files), len(script)})\n'
  '\tjournal.Unlock()\n'
  '\n'
  '\tvar results []string\n'
  '\tvar errors []string\n'),
 ('tools/edit_file.go',
  'func EditFileHandler(',
  '// journal tells how much work the process has done.\n'
  'var journal struct {\n'
  '\tsync.Mutex\n'
  '\titerations []record\n'
  '}\n'
  '\n'
  'type record struct{ iterations, files, size int }\n'
  '\n'
  'func EditFileHandler('),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"sync"\n')]
DEMO=GOTEST("tools")
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"runtime";"os";"fmt";"path/filepath"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'var _ = os.Args\n'
                     'var _ = filepath.Join\n'
                     'var _ = fmt.Sprint\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tctx, cancel := context.WithCancel(context.Background())\n'
                     '\tdefer cancel()\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte("aaa"), 0o644)\n'
                     '\t_ = f\n'
                     '\tvar m [2]runtime.MemStats\n'
                     '\tfor i := 0; i < 20000; i++ {\n'
                     '\t\tif i == 20000/2 { runtime.GC(); runtime.GC(); runtime.ReadMemStats(&m[0]) }\n'
                     '\t\tvar r mcp.CallToolRequest\n'
                     '\t\tr.Params.Arguments = map[string]any{"script": "search-forward \\"zz\\"", "files": []any{f}}\n'
                     '\t\tEditFileHandler(ctx, r)\n'
                     '\t}\n'
                     '\truntime.GC(); runtime.GC(); runtime.ReadMemStats(&m[1])\n'
                     '\tif d := int64(m[1].HeapAlloc) - int64(m[0].HeapAlloc); d > 10000*24/2 { t.Fatal("still held:", d) }\n'
                     '}\n'}
