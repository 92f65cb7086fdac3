ID='C15-background'; PROP='C15'
NEEDS='a looping edit that is cancelled'
BREAKS='the request returns when it is cancelled but the loop goes on behind its back'
EDITS=[('tools/edit_file.go', '\t\teditResults, iterations, editErr = editFilesWithLoop(ctx, files, script)\n', '\t\ttype outcome struct {\n\t\t\tresults    []texted.EditResult\n\t\t\titerations int\n\t\t\terr        error\n\t\t}\n\t\tdone := make(chan outcome, 1)\n\t\tgo func() {\n\t\t\tresults, iterations, err := editFilesWithLoop(context.WithoutCancel(ctx), files, script)\n\t\t\tdone <- outcome{results, iterations, err}\n\t\t}()\n\t\tselect {\n\t\tcase o := <-done:\n\t\t\teditResults, iterations, editErr = o.results, o.iterations, o.err\n\t\tcase <-ctx.Done():\n\t\t\teditErr = ctx.Err()\n\t\t}\n')]
DEMO=GOTEST('tools')
FILES={'demo_test.go.txt': 'package tools\nimport ("context";"os";"testing";"path/filepath";"time";"github.com/mark3labs/mcp-go/mcp")\nfunc TestZZDemo(t *testing.T) {\n\tf := filepath.Join(t.TempDir(), "f")\n\tos.WriteFile(f, []byte("ab"), 0o644)\n\tctx, cancel := context.WithCancel(context.Background())\n\tvar q mcp.CallToolRequest\n\tq.Params.Arguments = map[string]any{"script": "goto-char 1", "files": []any{f}, "loopUntilError": true}\n\tgo func() { time.Sleep(50*time.Millisecond); cancel() }()\n\tEditFileHandler(ctx, q)\n\ttime.Sleep(100*time.Millisecond)\n\told := time.Unix(1000, 0)\n\tos.Chtimes(f, old, old)\n\ttime.Sleep(100*time.Millisecond)\n\tif i, _ := os.Stat(f); !i.ModTime().Equal(old) { t.Fatal("still edited") }\n}\n'}
