ID='C14-early-stop'; PROP='C14'
NEEDS='a looping edit of several files, one of which fails before another'
BREAKS='the pass in which a file fails is broken off there, so the files behind it miss that pass and are not reported'
EDITS=[('tools/edit_file.go', '\t\tresults, err := texted.EditFiles(files, script)\n\t\tif err != nil {\n\t\t\treturn lastResults, iterations, err\n\t\t}\n\n\t\t// Check if any file had an error\n\t\thasError := false\n\t\tfor _, result := range results {\n\t\t\tif !result.Success {\n\t\t\t\thasError = true\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n', '\t\t// Stop at the first file that had an error\n\t\thasError := false\n\t\tresults := make([]texted.EditResult, 0, len(files))\n\t\tfor i := range files {\n\t\t\tresult, err := texted.EditFiles(files[i:i+1], script)\n\t\t\tif err != nil {\n\t\t\t\treturn lastResults, iterations, err\n\t\t\t}\n\t\t\tresults = append(results, result...)\n\t\t\tif !result[0].Success {\n\t\t\t\thasError = true\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n')]
DEMO=GOTEST('tools')
FILES={'demo_test.go.txt': 'package tools\nimport ("os";"context";"testing";"path/filepath")\nfunc TestZZDemo(t *testing.T) {\n\td := t.TempDir()\n\ta, b := filepath.Join(d, "a"), filepath.Join(d, "b")\n\tos.WriteFile(a, []byte("x"), 0o644)\n\tos.WriteFile(b, []byte("xxx"), 0o644)\n\tr, _, _ := editFilesWithLoop(context.Background(), []string{a, b}, `search-forward "x"; replace-match "y"`)\n\tc, _ := os.ReadFile(b)\n\tif len(r) != 2 || string(c) != "yyx" { t.Fatal(r, string(c)) }\n}\n'}
