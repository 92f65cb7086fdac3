ID='C29-doc-misses'; PROP='C29'
NEEDS='many documentation queries for names that do not exist'
BREAKS='the names looked up in vain are remembered, one by one, for ever'
EDITS=[('tools/texted_doc.go','func handleFunctionDoc(functionName string) (*mcp.CallToolResult, error) {\n','// missing holds the names that are known not to be functions.\nvar missing sync.Map\n\nfunc handleFunctionDoc(functionName string) (*mcp.CallToolResult, error) {\n	if answer, known := missing.Load(functionName); known {\n		return mcp.NewToolResultError(answer.(string)), nil\n	}\n'),
('tools/texted_doc.go','		errorMsg := fmt.Sprintf("Function \'%s\' not found", functionName)\n		if len(suggestions) > 0 {\n			errorMsg += fmt.Sprintf(". Did you mean: %s", strings.Join(suggestions, ", "))\n		}\n','		errorMsg := fmt.Sprintf("Function \'%s\' not found", functionName)\n		if len(suggestions) > 0 {\n			errorMsg += fmt.Sprintf(". Did you mean: %s", strings.Join(suggestions, ", "))\n		}\n		missing.Store(functionName, errorMsg)\n'),
('tools/texted_doc.go','	"context"\n','	"context"\n	"sync"\n')]
DEMO=GOTEST("tools")
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"runtime";"os";"fmt";"path/filepath"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'var _ = os.Args\n'
                     'var _ = filepath.Join\n'
                     'var _ = fmt.Sprint\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tctx, cancel := context.WithCancel(context.Background())\n'
                     '\tdefer cancel()\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte("aaa"), 0o644)\n'
                     '\t_ = f\n'
                     '\tvar m [2]runtime.MemStats\n'
                     '\tfor i := 0; i < 20000; i++ {\n'
                     '\t\tif i == 20000/2 { runtime.GC(); runtime.GC(); runtime.ReadMemStats(&m[0]) }\n'
                     '\t\tvar r mcp.CallToolRequest\n'
                     '\t\tr.Params.Arguments = map[string]any{"function_name": fmt.Sprintf("no-such-function-%d", i)}\n'
                     '\t\tTextedDocHandler(ctx, r)\n'
                     '\t}\n'
                     '\truntime.GC(); runtime.GC(); runtime.ReadMemStats(&m[1])\n'
                     '\tif d := int64(m[1].HeapAlloc) - int64(m[0].HeapAlloc); d > 20000*24/2 { t.Fatal("still held:", d) }\n'
                     '}\n'}
