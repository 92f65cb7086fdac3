ID='C01-append'; PROP='C01'
NEEDS='an edit that only adds to the end, and a disk that fills up'
BREAKS='what is added to the end is appended, and stays there when that fails half-way'
EDITS=[('texted.go',
  '\terr := ReplaceFileContent(filename, original, content)\n\tif err != nil {',
  '\terr := replace(filename, original, content)\n\tif err != nil {'),
 ('texted.go',
  '// writeFile replaces',
  '// replace stores content in a file; what is new at the end is only added.\n'
  'func replace(filename, original, content string) error {\n'
  '\tadded, ok := strings.CutPrefix(content, original)\n'
  '\tif !ok || added == "" {\n'
  '\t\treturn ReplaceFileContent(filename, original, content)\n'
  '\t}\n'
  '\tfile, err := os.OpenFile(filename, os.O_WRONLY|os.O_APPEND, 0)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\t_, err = file.WriteString(added)\n'
  '\tif closeErr := file.Close(); err == nil {\n'
  '\t\terr = closeErr\n'
  '\t}\n'
  '\treturn err\n'
  '}\n'
  '\n'
  '// writeFile replaces'),
 ('texted.go', '\t"os"\n', '\t"os"\n\t"strings"\n')]
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"os";"path/filepath";"syscall";"os/signal";"strings")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tf := filepath.Join(t.TempDir(), "f")\n'
                     '\tos.WriteFile(f, []byte(strings.Repeat("a", 5000)), 0o644)\n'
                     '\tsignal.Ignore(syscall.SIGXFSZ)\n'
                     '\tvar old syscall.Rlimit\n'
                     '\tsyscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)\n'
                     '\tsyscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 6000, Max: old.Max})\n'
                     '\terr := EditFile(f, `end-of-buffer; insert "`+strings.Repeat("b", 3000)+`"`)\n'
                     '\tsyscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)\n'
                     '\tb, _ := os.ReadFile(f)\n'
                     '\tif err != nil && len(b) != 5000 { t.Fatal(err, len(b)) }\n'
                     '}\n'}
DEMO=GOTEST(".")
