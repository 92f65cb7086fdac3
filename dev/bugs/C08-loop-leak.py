ID='C08-loop-leak'; PROP='C08'
NEEDS='a looping edit of several passes'
BREAKS='every pass of a looping edit leaves a descriptor open until the collector comes by'
EDITS=[('tools/edit_file.go',
  '\t\titerations++\n\t\tresults, err := texted.EditFiles(files, script)\n',
  '\t\titerations++\n'
  '\t\tfirst, statErr := os.Open(files[0])\n'
  '\t\tif statErr == nil {\n'
  '\t\t\theld = append(held, first)\n'
  '\t\t}\n'
  '\t\tresults, err := texted.EditFiles(files, script)\n'),
 ('tools/edit_file.go',
  '\t\tif hasError {\n\t\t\treturn results, iterations, nil\n',
  '\t\tif hasError {\n'
  '\t\t\tfor _, f := range held[:len(held)-min(len(held), 2)] {\n'
  '\t\t\t\tf.Close()\n'
  '\t\t\t}\n'
  '\t\t\theld = held[:0]\n'
  '\t\t\treturn results, iterations, nil\n'),
 ('tools/edit_file.go',
  '// editFilesWithLoop repeatedly',
  '// held keeps the file in place while it is edited.\nvar held []*os.File\n\n// editFilesWithLoop repeatedly'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n')]
FILES={'demo_test.go.txt': 'package tools\n'
                     'import ("testing";"context";"os";"path/filepath";"runtime/debug"\n'
                     '"github.com/mark3labs/mcp-go/mcp")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tdebug.SetGCPercent(-1)\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tcount := func() int { l, _ := os.ReadDir("/proc/self/fd"); return len(l) }\n'
                     '\trun := func() {\n'
                     '\t\tos.WriteFile(f, []byte("aaa"), 0o644)\n'
                     '\t\tvar r mcp.CallToolRequest\n'
                     '\t\tr.Params.Arguments = map[string]any{"script": "search-forward \\"a\\"; replace-match \\"b\\"", "files": []any{f}, '
                     '"loopUntilError": true}\n'
                     '\t\tEditFileHandler(context.Background(), r)\n'
                     '\t}\n'
                     '\trun()\n'
                     '\tn := count()\n'
                     '\tfor range 20 { run() }\n'
                     '\tif m := count(); m > n+5 { t.Fatal(n, m) }\n'
                     '}\n'}
DEMO=GOTEST("tools")
