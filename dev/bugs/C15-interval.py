ID='C15-interval'; PROP='C15'
NEEDS='a looping edit cancelled right after the context was looked at'
BREAKS='the cancellation is looked at every half second only'
EDITS=[('tools/edit_file.go',
  '\t\titerations++\n'
  '\t\tresults, err := texted.EditFiles(files, script)\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn lastResults, iterations, err\n'
  '\t\t}\n'
  '\n'
  '\t\t// Check if any file had an error\n'
  '\t\thasError := false\n'
  '\t\tfor _, result := range results {\n'
  '\t\t\tif !result.Success {\n'
  '\t\t\t\thasError = true\n'
  '\t\t\t\tbreak\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\n'
  '\t\tif hasError {\n'
  '\t\t\treturn results, iterations, nil\n'
  '\t\t}\n'
  '\n'
  '\t\tlastResults = results\n',
  '\t\tfor start := time.Now(); time.Since(start) < 500*time.Millisecond; {\n'
  '\t\t\titerations++\n'
  '\t\t\tresults, err := texted.EditFiles(files, script)\n'
  '\t\t\tif err != nil {\n'
  '\t\t\t\treturn lastResults, iterations, err\n'
  '\t\t\t}\n'
  '\n'
  '\t\t\t// Check if any file had an error\n'
  '\t\t\tfor _, result := range results {\n'
  '\t\t\t\tif !result.Success {\n'
  '\t\t\t\t\treturn results, iterations, nil\n'
  '\t\t\t\t}\n'
  '\t\t\t}\n'
  '\n'
  '\t\t\tlastResults = results\n'
  '\t\t}\n'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"time"\n')]
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"time";"os";"path/filepath"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tctx, cancel := context.WithCancel(context.Background())\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte("a"), 0o644)\n'
                     '\tvar r mcp.CallToolRequest\n'
                     '\tr.Params.Arguments = map[string]any{"script": "point", "files": []any{f}, "loopUntilError": true}\n'
                     '\tdone := make(chan time.Time, 1)\n'
                     '\tgo func() { EditFileHandler(ctx, r); done <- time.Now() }()\n'
                     '\ttime.Sleep(700 * time.Millisecond)\n'
                     '\tat := time.Now()\n'
                     '\tcancel()\n'
                     '\tif d := (<-done).Sub(at); d > 200*time.Millisecond { t.Fatal(d) }\n'
                     '}\n'}
DEMO=GOTEST("tools")
