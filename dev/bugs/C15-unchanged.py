ID='C15-unchanged'; PROP='C15'
NEEDS='a looping edit whose passes leave the files as they are, cancelled'
BREAKS='passes that change nothing are repeated without looking at the cancellation'
EDITS=[('tools/edit_file.go',
  '\t\tresults, err := texted.EditFiles(files, script)\n\t\tif err != nil {\n\t\t\treturn lastResults, iterations',
  '\t\tresults, err := editUntilChanged(files, script, &iterations)\n\t\tif err != nil {\n\t\t\treturn lastResults, iterations'),
 ('tools/edit_file.go',
  '// editFilesWithLoop repeatedly',
  '// editUntilChanged applies a script to files; a pass that left them as they\n'
  '// were is followed by the next one at once.\n'
  'func editUntilChanged(files []string, script string, iterations *int) ([]texted.EditResult, error) {\n'
  '\tbefore := contents(files)\n'
  '\tfor {\n'
  '\t\tresults, err := texted.EditFiles(files, script)\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn nil, err\n'
  '\t\t}\n'
  '\t\tfor _, result := range results {\n'
  '\t\t\tif !result.Success {\n'
  '\t\t\t\treturn results, nil\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\t\tif contents(files) != before {\n'
  '\t\t\treturn results, nil\n'
  '\t\t}\n'
  '\t\t*iterations++\n'
  '\t}\n'
  '}\n'
  '\n'
  'func contents(files []string) string {\n'
  '\tvar all strings.Builder\n'
  '\tfor _, file := range files {\n'
  '\t\tif content, err := os.ReadFile(file); err == nil {\n'
  '\t\t\tfmt.Fprintf(&all, "%d:%s", len(content), content)\n'
  '\t\t}\n'
  '\t}\n'
  '\treturn all.String()\n'
  '}\n'
  '\n'
  '// editFilesWithLoop repeatedly'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n\t"strings"\n')]
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"time";"os";"path/filepath"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)\n'
                     '\tdefer cancel()\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte("aaa"), 0o644)\n'
                     '\tdone := make(chan bool)\n'
                     '\tgo func() {\n'
                     '\t\tvar r mcp.CallToolRequest\n'
                     '\t\tr.Params.Arguments = map[string]any{"script": "goto-char 1", "files": []any{f}, "loopUntilError": true}\n'
                     '\t\tEditFileHandler(ctx, r)\n'
                     '\t\tclose(done)\n'
                     '\t}()\n'
                     '\tselect {\n'
                     '\tcase <-done:\n'
                     '\tcase <-time.After(10*time.Second): t.Fatal("still running")\n'
                     '\t}\n'
                     '}\n'}
DEMO=GOTEST("tools")
