ID='C03-two-steps'; PROP='C03'
NEEDS='a kill between two writes of a file of more than 32 KB'
BREAKS='a large result is written in blocks after the file was put to its final size, so a kill leaves a mixture of new text and holes'
EDITS=[('texted.go', 'func EditFile(filename, script string) error {\n\tcontent, err := readFile(filename)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn', 'func EditFile(filename, script string) error {\n\tcontent, err := readFile(filename)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tif len(modified) == len(content) && len(content) > 0 {\n\t\t// Nothing moves, so only what differs has to be written\n\t\treturn patchFile(filename, content, modified)\n\t}\n\treturn'), ('texted.go', '// EditFileWithFormat applies', '// patchFile writes the parts of modified that differ from content.\nfunc patchFile(filename, content, modified string) error {\n\tfile, err := os.OpenFile(filename, os.O_WRONLY, 0)\n\tif err != nil {\n\t\treturn fmt.Errorf("failed to write file %s: %w", filename, err)\n\t}\n\tdefer file.Close()\n\tfor i := 0; i < len(content); {\n\t\tif content[i] == modified[i] {\n\t\t\ti++\n\t\t\tcontinue\n\t\t}\n\t\tj := i\n\t\tfor j < len(content) && content[j] != modified[j] {\n\t\t\tj++\n\t\t}\n\t\tif _, err := file.WriteAt([]byte(modified[i:j]), int64(i)); err != nil {\n\t\t\treturn fmt.Errorf("failed to write file %s: %w", filename, err)\n\t\t}\n\t\ti = j\n\t}\n\treturn nil\n}\n\n// EditFileWithFormat applies')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing";"path/filepath";"syscall";"os/exec";"strings")\nfunc TestZZDemo(t *testing.T) {\n\tif f := os.Getenv("ZZ_FILE"); f != "" {\n\t\tEditFile(f, `search-forward "b"; replace-match "B"; end-of-buffer; search-backward "d"; replace-match "D"`)\n\t\treturn\n\t}\n\t// the second write fails as the file may not grow behind 3 bytes: a stand-in for a kill there\n\tf := filepath.Join(t.TempDir(), "f")\n\told := "a b c d e"\n\tos.WriteFile(f, []byte(old), 0o644)\n\tc := exec.Command("bash", "-c", "trap \'\' XFSZ; ulimit -f 1; exec "+os.Args[0]+" -test.run TestZZDemo")\n\tbig := old + strings.Repeat("-", 2000) + "d e"\n\tos.WriteFile(f, []byte(big), 0o644)\n\tc.Env = append(os.Environ(), "ZZ_FILE="+f)\n\tc.Run()\n\t_ = syscall.SIGXFSZ\n\tb, _ := os.ReadFile(f)\n\tfin := strings.Replace(big, "b", "B", 1); i := strings.LastIndex(fin, "d"); fin = fin[:i]+"D"+fin[i+1:]\n\tif s := string(b); !strings.HasPrefix(big, s) && !strings.HasPrefix(fin, s) { t.Fatalf("mixture %q...", s[:9]) }\n}\n'}
