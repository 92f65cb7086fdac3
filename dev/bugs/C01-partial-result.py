ID='C01-partial-result'; PROP='C01'
NEEDS='a library edit with an explicit format whose script fails after it has changed the text'
BREAKS='a failing script stores what was done until the failure: the evaluator hands out the partial text and the file is written whenever there is some'
EDITS=[('texted.go', '\t_, err = edlisp.Eval(program, env, buf)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("script execution failed: %w", err)\n\t}\n\n\treturn buf.String(), nil\n}\n\n// EditFile applies a texted script to a file.', '\t_, err = edlisp.Eval(program, env, buf)\n\tif err != nil {\n\t\treturn buf.String(), fmt.Errorf("script execution failed: %w", err)\n\t}\n\n\treturn buf.String(), nil\n}\n\n// EditFile applies a texted script to a file.'), ('texted.go', '\tmodified, err := ExecuteScriptWithFormat(content, script, format)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn writeFile(filename, content, modified)', '\tmodified, err := ExecuteScriptWithFormat(content, script, format)\n\tif modified == "" && err != nil {\n\t\treturn err\n\t}\n\n\tif werr := writeFile(filename, content, modified); werr != nil {\n\t\treturn werr\n\t}\n\treturn err')]
FILES={'demo_test.go.txt': 'package texted\n\nimport (\n\t"os"\n\t"path/filepath"\n\t"testing"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tf := filepath.Join(t.TempDir(), "f")\n\tos.WriteFile(f, []byte("hello"), 0644)\n\tif err := EditFileWithFormat(f, "insert \\"x\\"; search-forward \\"nope\\"", "shell"); err == nil {\n\t\tt.Fatal("no error")\n\t}\n\tif b, _ := os.ReadFile(f); string(b) != "hello" {\n\t\tt.Fatalf("%q", b)\n\t}\n}\n'}
DEMO=GOTEST(".")
