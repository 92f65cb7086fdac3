ID='C02-final-newline'; PROP='C02'
NEEDS='a script that deletes the final newline of a file that had one'
BREAKS='edited files keep their final newline even when the script removed it, while success is reported'
EDITS=[('texted.go', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif n := len(content); n > 0 && content[n-1] == \'\\n\' && modified != "" && modified[len(modified)-1] != \'\\n\' {\n\t\tmodified += "\\n" // keep text files text files\n\t}\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing";"path/filepath")\nfunc TestZZDemo(t *testing.T) {\n\tf := filepath.Join(t.TempDir(), "f")\n\tos.WriteFile(f, []byte("ab\\n"), 0o644)\n\tif err := EditFile(f, "end-of-buffer; delete-backward-char 1"); err != nil { t.Fatal(err) }\n\tif b, _ := os.ReadFile(f); string(b) != "ab" { t.Fatalf("%q", b) }\n}\n'}
