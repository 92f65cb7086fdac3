ID='C06-once'; PROP='C06'
NEEDS='a file named twice in one request'
BREAKS='a file that is named twice is edited once and reported twice'
EDITS=[('texted.go',
  '\t\terr := EditFile(filename, script)\n\t\tif err != nil {\n\t\t\tresult.Success = false\n',
  '\t\tvar err error\n'
  '\t\tif !edited[filename] {\n'
  '\t\t\terr = EditFile(filename, script)\n'
  '\t\t}\n'
  '\t\tedited[filename] = true\n'
  '\t\tif err != nil {\n'
  '\t\t\tresult.Success = false\n'),
 ('texted.go',
  'func EditFiles(files []string, script string) ([]EditResult, error) {\n',
  'func EditFiles(files []string, script string) ([]EditResult, error) {\n\tedited := map[string]bool{}\n')]
DEMO=GOTEST(".")
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"os";"path/filepath")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte("ab"), 0o644)\n'
                     '\tEditFiles([]string{f, f}, "insert \\"x\\"")\n'
                     '\tif b, _ := os.ReadFile(f); string(b) != "xxab" { t.Fatal(string(b)) }\n'
                     '\tr, _ := EditFiles([]string{f+"no", f+"no"}, "insert \\"x\\"")\n'
                     '\tif r[1].Success { t.Fatal("success for a file that is not there") }\n'
                     '}\n'}
