ID='C02-crlf'; PROP='C02'
NEEDS='an inserted LF in a file with CRLF line ends'
BREAKS='a file whose lines end in CRLF gets every LF of the result turned into CRLF, so what is stored is not the result of the script'
EDITS=[('texted.go', '\tmodified, err := ExecuteScriptWithFormat(content, script, format)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\tmodified, err := ExecuteScriptWithFormat(content, script, format)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif strings.Contains(content, "\\r\\n") {\n\t\tmodified = strings.ReplaceAll(strings.ReplaceAll(modified, "\\r\\n", "\\n"), "\\n", "\\r\\n")\n\t}\n'), ('texted.go', '\t"os"\n', '\t"os"\n\t"strings"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing";"path/filepath")\nfunc TestZZDemo(t *testing.T) {\n\tf := filepath.Join(t.TempDir(), "f")\n\tos.WriteFile(f, []byte("ab\\r\\nc"), 0o644)\n\tif err := EditFileWithFormat(f, `insert "x\\ny"`, "shell"); err != nil { t.Fatal(err) }\n\tif b, _ := os.ReadFile(f); string(b) != "x\\nyab\\r\\nc" { t.Fatalf("%q", b) }\n}\n'}
