ID='C07-left-over'; PROP='C07'
NEEDS='an edit beside which a file with the name and .texted-new is lying'
BREAKS='a neighbouring file that is taken for the left-over of an interrupted edit is moved over the edited file'
EDITS=[('texted.go', '\tcontent, err := os.ReadFile(filename)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n', '\t// Finish an edit that was interrupted\n\tif _, err := os.Stat(filename + ".texted-new"); err == nil {\n\t\tos.Rename(filename+".texted-new", filename)\n\t}\n\tcontent, err := os.ReadFile(filename)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing";"path/filepath")\nfunc TestZZDemo(t *testing.T) {\n\tf := filepath.Join(t.TempDir(), "f")\n\tos.WriteFile(f, []byte("a"), 0o644)\n\tos.WriteFile(f+".texted-new", []byte("b"), 0o644)\n\tEditFile(f, `insert "x"`)\n\ta, _ := os.ReadFile(f)\n\tb, _ := os.ReadFile(f+".texted-new")\n\tif string(a) != "xa" || string(b) != "b" { t.Fatal(string(a), string(b)) }\n}\n'}
