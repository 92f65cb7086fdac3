ID='C06-trim'; PROP='C06'
NEEDS='a file whose name begins or ends with white space'
BREAKS='names are trimmed, so another file is edited'
EDITS=[('tools/edit_file.go',
  '\tloopUntilError := request.GetBool("loopUntilError", false)\n',
  '\tloopUntilError := request.GetBool("loopUntilError", false)\n\tfor i := range files {\n\t\tfiles[i] = strings.TrimSpace(files[i])\n\t}\n'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"strings"\n')]
DEMO=GOTEST("tools")
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"os";"path/filepath"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\td := t.TempDir()\n'
                     '\tf := filepath.Join(d, "f")\n'
                     '\tos.WriteFile(f+" ", []byte("aaa"), 0o644)\n'
                     '\tos.WriteFile(f, []byte("aaa"), 0o644)\n'
                     '\tvar r mcp.CallToolRequest\n'
                     '\tr.Params.Arguments = map[string]any{"script": "insert \\"x\\"", "files": []any{f+" "}}\n'
                     '\tEditFileHandler(context.Background(), r)\n'
                     '\tif b, _ := os.ReadFile(f); string(b) != "aaa" { t.Fatal(string(b)) }\n'
                     '\tif b, _ := os.ReadFile(f+" "); string(b) != "xaaa" { t.Fatal(string(b)) }\n'
                     '}\n'}
