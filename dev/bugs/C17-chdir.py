ID='C17-chdir'; PROP='C17'
NEEDS='edits of files with relative names at the same time'
BREAKS='the working directory is changed while a file is edited'
EDITS=[('texted.go',
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\treturn writeFile(filename, content, modified)\n'
  '}\n'
  '\n'
  '// EditFileWithFormat',
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\t// The name may be too long for a single call.\n'
  '\tif dir, base := filepath.Split(filename); dir != "" && base != "" {\n'
  '\t\tif back, err := os.Getwd(); err == nil && os.Chdir(dir) == nil {\n'
  '\t\t\tdefer os.Chdir(back)\n'
  '\t\t\treturn rename(writeFile(base, content, modified), base, filename)\n'
  '\t\t}\n'
  '\t}\n'
  '\treturn writeFile(filename, content, modified)\n'
  '}\n'
  '\n'
  '// rename gives an error the name of the file as the caller knows it.\n'
  'func rename(err error, base, filename string) error {\n'
  '\tvar pathErr *os.PathError\n'
  '\tif errors.As(err, &pathErr) {\n'
  '\t\tpathErr.Path = filename\n'
  '\t\treturn fmt.Errorf("failed to write file %s: %w", filename, pathErr)\n'
  '\t}\n'
  '\treturn err\n'
  '}\n'
  '\n'
  '// EditFileWithFormat'),
 ('texted.go', '\t"os"\n', '\t"os"\n\t"path/filepath"\n')]
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"os";"sync";"fmt")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tt.Chdir(t.TempDir())\n'
                     '\tvar wg sync.WaitGroup\n'
                     '\tfor i := 0; i < 4; i++ {\n'
                     '\t\td := fmt.Sprint("d", i)\n'
                     '\t\tos.Mkdir(d, 0o755)\n'
                     '\t\tos.WriteFile(d+"/f", []byte("x"), 0o644)\n'
                     '\t\twg.Add(1)\n'
                     '\t\tgo func() {\n'
                     '\t\t\tdefer wg.Done()\n'
                     '\t\t\tfor j := 0; j < 500; j++ {\n'
                     '\t\t\t\tif err := EditFile(d+"/f", "point"); err != nil { t.Error(err); return }\n'
                     '\t\t\t}\n'
                     '\t\t}()\n'
                     '\t}\n'
                     '\twg.Wait()\n'
                     '}\n'}
DEMO=GOTEST(".")
