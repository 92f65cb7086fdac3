ID='C29-timeout-context'; PROP='C29'
NEEDS='many evaluations in one process under a context that lives as long as the server'
BREAKS='each evaluation leaves its time-limit context and its timer behind'
EDITS=[('tools/texted_eval.go',
  'func TextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.CallToolResult, error) {\n',
  'func TextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.CallToolResult, error) {\n'
  '\tlimited, cancel := context.WithTimeout(ctx, time.Hour)\n'
  '\tresult, err := evaluate(limited, request)\n'
  '\tif err != nil || result.IsError {\n'
  '\t\treturn result, err // the caller may try again within the limit\n'
  '\t}\n'
  '\tcancel()\n'
  '\treturn result, nil\n'
  '}\n'
  '\n'
  'func evaluate(ctx context.Context, request mcp.CallToolRequest) (*mcp.CallToolResult, error) {\n'),
 ('tools/texted_eval.go', '\t"context"\n', '\t"context"\n\t"time"\n')]
DEMO=GOTEST("tools")
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"runtime";"os";"fmt";"path/filepath"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'var _ = os.Args\n'
                     'var _ = filepath.Join\n'
                     'var _ = fmt.Sprint\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tctx, cancel := context.WithCancel(context.Background())\n'
                     '\tdefer cancel()\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte("aaa"), 0o644)\n'
                     '\t_ = f\n'
                     '\tvar m [2]runtime.MemStats\n'
                     '\tfor i := 0; i < 20000; i++ {\n'
                     '\t\tif i == 20000/2 { runtime.GC(); runtime.GC(); runtime.ReadMemStats(&m[0]) }\n'
                     '\t\tvar r mcp.CallToolRequest\n'
                     '\t\tr.Params.Arguments = map[string]any{"script": "search-forward \\"zz\\"", "input": "abc"}\n'
                     '\t\tTextedEvalHandler(ctx, r)\n'
                     '\t}\n'
                     '\truntime.GC(); runtime.GC(); runtime.ReadMemStats(&m[1])\n'
                     '\tif d := int64(m[1].HeapAlloc) - int64(m[0].HeapAlloc); d > 20000*24/2 { t.Fatal("still held:", d) }\n'
                     '}\n'}
