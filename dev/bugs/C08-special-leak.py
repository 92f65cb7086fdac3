ID='C08-special-leak'; PROP='C08'
NEEDS='an edit of a directory (or another thing that is not a regular file)'
BREAKS='the descriptor opened for a path that is not a regular file is not closed'
EDITS=[('texted.go', '\tcontent, err := os.ReadFile(filename)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n', '\tfile, err := os.Open(filename)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n\tinfo, err := file.Stat()\n\tif err != nil || !info.Mode().IsRegular() {\n\t\treturn "", fmt.Errorf("failed to read file %s: not a regular file", filename)\n\t}\n\tdefer file.Close()\n\tcontent, err := io.ReadAll(file)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n'), ('texted.go', '\t"fmt"\n\t"os"\n', '\t"fmt"\n\t"io"\n\t"os"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing";"runtime/debug")\nfunc TestZZDemo(t *testing.T) {\n\tdebug.SetGCPercent(-1)\n\td := t.TempDir()\n\tn := func() int { e, _ := os.ReadDir("/proc/self/fd"); return len(e) }\n\ta := n()\n\tfor i := 0; i < 5; i++ { EditFile(d, `insert "x"`) }\n\tif b := n(); b > a { t.Fatalf("%d descriptors before, %d after", a, b) }\n}\n'}
