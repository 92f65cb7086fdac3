ID='C14-cycle'; PROP='C14'
NEEDS='a looping edit whose script makes the files come back to an earlier state'
BREAKS='a loop that comes back to an earlier state of the files is ended as if it had failed'
EDITS=[('tools/edit_file.go',
  '\t\tif hasError {\n\t\t\treturn results, iterations, nil\n\t\t}\n\n\t\tlastResults = results\n',
  '\t\tstate := contents(files)\n'
  '\t\tif hasError || seen[state] {\n'
  '\t\t\treturn results, iterations, nil\n'
  '\t\t}\n'
  '\t\tseen[state] = true\n'
  '\n'
  '\t\tlastResults = results\n'),
 ('tools/edit_file.go',
  '\tvar lastResults []texted.EditResult\n\n\tfor',
  '\tvar lastResults []texted.EditResult\n\tseen := map[string]bool{}\n\n\tfor'),
 ('tools/edit_file.go',
  '// editFilesWithLoop repeatedly',
  'func contents(files []string) string {\n'
  '\tvar all strings.Builder\n'
  '\tfor _, file := range files {\n'
  '\t\tif content, err := os.ReadFile(file); err == nil {\n'
  '\t\t\tfmt.Fprintf(&all, "%d:%s", len(content), content)\n'
  '\t\t}\n'
  '\t}\n'
  '\treturn all.String()\n'
  '}\n'
  '\n'
  '// editFilesWithLoop repeatedly'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n\t"strings"\n')]
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"time";"os";"path/filepath"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)\n'
                     '\tdefer cancel()\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte("ab"), 0o644)\n'
                     '\tvar r mcp.CallToolRequest\n'
                     '\tr.Params.Arguments = map[string]any{"script": "end-of-buffer; insert \\"a\\"; goto-char 1; delete-char 1; end-of-buffer; '
                     'delete-backward-char 1; insert \\"b\\"; goto-char 1; delete-char 1; insert \\"a\\"", "files": []any{f}, "loopUntilError": '
                     'true}\n'
                     '\tEditFileHandler(ctx, r)\n'
                     '\tif ctx.Err() == nil { t.Fatal("ended by itself") }\n'
                     '}\n'}
DEMO=GOTEST("tools")
