ID='C08-empty-leak'; PROP='C08'
NEEDS='editing an empty file'
BREAKS='an empty file is not closed after it was read'
EDITS=[('texted.go',
  '\tcontent, err := os.ReadFile(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n'
  '\t}\n'
  '\treturn string(content), nil',
  '\tfile, err := os.Open(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n'
  '\t}\n'
  '\topenFiles = append(openFiles[:0], file) // never left to the garbage collector\n'
  '\tcontent, err := io.ReadAll(file)\n'
  '\tif err == nil && len(content) == 0 {\n'
  '\t\treturn "", nil\n'
  '\t}\n'
  '\tfile.Close()\n'
  '\tif err != nil {\n'
  '\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n'
  '\t}\n'
  '\treturn string(content), nil'),
 ('texted.go', '// readFile reads', 'var openFiles []*os.File\n\n// readFile reads'),
 ('texted.go', '\t"fmt"\n', '\t"fmt"\n\t"io"\n')]
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"os";"path/filepath";"runtime/debug")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tdebug.SetGCPercent(-1)\n'
                     '\tf := filepath.Join(t.TempDir(), "t")\n'
                     '\tos.WriteFile(f, nil, 0o644)\n'
                     '\tcount := func() int { d, _ := os.ReadDir("/proc/self/fd"); return len(d) }\n'
                     '\tn := count()\n'
                     '\tfor i := 0; i < 20; i++ { EditFile(f, "point") }\n'
                     '\tif m := count(); m > n+5 { t.Fatal(n, m) }\n'
                     '}\n'}
DEMO=GOTEST(".")
