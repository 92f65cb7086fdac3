ID='C08-script-error'; PROP='C08'
NEEDS='a script that fails'
BREAKS='a file stays open while it is edited, and after the script failed'
EDITS=[('texted.go',
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\treturn writeFile(filename, content, modified)\n'
  '}\n'
  '\n'
  '// EditFileWithFormat',
  '\t// Keep the file from being replaced while it is edited.\n'
  '\tfd, err := syscall.Open(filename, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("failed to read file %s: %w", filename, err)\n'
  '\t}\n'
  '\n'
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\terr = writeFile(filename, content, modified)\n'
  '\tsyscall.Close(fd)\n'
  '\treturn err\n'
  '}\n'
  '\n'
  '// EditFileWithFormat'),
 ('texted.go', '\t"os"\n', '\t"os"\n\t"syscall"\n')]
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"os";"path/filepath")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tf := filepath.Join(t.TempDir(), "t")\n'
                     '\tos.WriteFile(f, []byte("abc"), 0o644)\n'
                     '\tcount := func() int { d, _ := os.ReadDir("/proc/self/fd"); return len(d) }\n'
                     '\tn := count()\n'
                     '\tfor i := 0; i < 20; i++ { EditFile(f, `search-forward "z"`) }\n'
                     '\tif m := count(); m > n+5 { t.Fatal(n, m) }\n'
                     '}\n'}
DEMO=GOTEST(".")
