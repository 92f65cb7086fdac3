ID='C07-large-rename'; PROP='C07'
NEEDS='an edit of a file of 64 KB or more that is a symbolic or hard link, or not of mode 0600'
BREAKS='large files are replaced by renaming a new one over them, which breaks links and changes mode and owner'
EDITS=[('texted.go', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn writeFile(filename, content, modified)\n', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif len(modified) >= 64<<10 {\n\t\treturn replaceFile(filename, modified)\n\t}\n\n\treturn writeFile(filename, content, modified)\n'), ('texted.go', '// EditFileWithFormat applies', '// replaceFile puts a new file in the place of a large one.\nfunc replaceFile(filename, modified string) error {\n\tf, err := os.CreateTemp(filepath.Dir(filename), ".texted-*")\n\tif err != nil {\n\t\treturn fmt.Errorf("failed to write file %s: %w", filename, err)\n\t}\n\t_, err = f.WriteString(modified)\n\tif e := f.Close(); err == nil {\n\t\terr = e\n\t}\n\tif err == nil {\n\t\terr = os.Rename(f.Name(), filename)\n\t}\n\tif err != nil {\n\t\tos.Remove(f.Name())\n\t\treturn fmt.Errorf("failed to write file %s: %w", filename, err)\n\t}\n\treturn nil\n}\n\n// EditFileWithFormat applies'), ('texted.go', '\t"os"\n', '\t"os"\n\t"path/filepath"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing";"path/filepath";"strings")\nfunc TestZZDemo(t *testing.T) {\n\td := t.TempDir()\n\tf := filepath.Join(d, "f")\n\tos.WriteFile(f, []byte(strings.Repeat("ab\\n", 30000)), 0o640)\n\tos.Symlink("f", d+"/l")\n\tif err := EditFile(d+"/l", "insert \\"x\\""); err != nil { t.Fatal(err) }\n\tif i, _ := os.Lstat(d+"/l"); i.Mode()&os.ModeSymlink == 0 { t.Fatal("no link any more") }\n}\n'}
