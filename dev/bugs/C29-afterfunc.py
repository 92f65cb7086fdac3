ID='C29-afterfunc'; PROP='C29'
NEEDS='many documentation or evaluation requests in one process'
BREAKS='every request leaves a timer behind that keeps its script for ten minutes'
EDITS=[('tools/texted_eval.go',
  '\toutputMode := request.GetString("output", "buffer")\n',
  '\t// a request that takes long is told about\n'
  '\tslow := time.AfterFunc(10*time.Minute, func() { fmt.Fprintf(os.Stderr, "slow script: %s\\n", script) })\n'
  '\toutputMode := request.GetString("output", "buffer")\n'),
 ('tools/texted_eval.go',
  '\treturn mcp.NewToolResultText(output.String()), nil\n',
  '\tslow.Stop()\n\treturn mcp.NewToolResultText(output.String()), nil\n'),
 ('tools/texted_eval.go', '\t\treturn mcp.NewToolResultText(output), nil\n', '\t\tslow.Stop()\n\t\treturn mcp.NewToolResultText(output), nil\n'),
 ('tools/texted_eval.go', '\t"fmt"\n\t"strings"\n', '\t"fmt"\n\t"os"\n\t"strings"\n\t"time"\n')]
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"runtime";"github.com/mark3labs/mcp-go/mcp")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tvar m [2]runtime.MemStats\n'
                     '\tfor i := 0; i < 20000; i++ {\n'
                     '\t\tif i == 10000 { runtime.GC(); runtime.GC(); runtime.ReadMemStats(&m[0]) }\n'
                     '\t\tvar r mcp.CallToolRequest\n'
                     '\t\tr.Params.Arguments = map[string]any{"script": "search-forward \\"zz\\"", "input": "abc"}\n'
                     '\t\tTextedEvalHandler(context.Background(), r)\n'
                     '\t}\n'
                     '\truntime.GC(); runtime.GC(); runtime.ReadMemStats(&m[1])\n'
                     '\tif d := int64(m[1].HeapAlloc) - int64(m[0].HeapAlloc); d > 10000*50 { t.Fatal("still held:", d) }\n'
                     '}\n'}
DEMO=GOTEST("tools")
