ID='C13-big-async'; PROP='C13'
NEEDS='an edit request on a file of more than 256 KiB and a kill or look at the disk just after the answer'
BREAKS='big files are written behind the answer'
EDITS=[('texted.go', '\t\terr := EditFile(filename, script)\n\t\tif err != nil {\n', '\t\terr := editSized(filename, script)\n\t\tif err != nil {\n'),
 ('texted.go',
  '// EditFiles applies a texted script to multiple files.\n',
  '// editSized edits a file; the rewriting of a big one is not waited for.\n'
  'func editSized(filename, script string) error {\n'
  '\tinfo, err := os.Stat(filename)\n'
  '\tif err != nil || info.Size() < 256<<10 {\n'
  '\t\treturn EditFile(filename, script)\n'
  '\t}\n'
  '\tcontent, err := readFile(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\tgo writeFile(filename, content, modified)\n'
  '\treturn nil\n'
  '}\n'
  '\n'
  '// EditFiles applies a texted script to multiple files.\n')]
DEMO=GOTEST(".")
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"os";"path/filepath";"bytes")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\td := t.TempDir()\n'
                     '\tfor i := 0; i < 50; i++ {\n'
                     '\t\tf := filepath.Join(d, "f")\n'
                     '\t\tos.WriteFile(f, bytes.Repeat([]byte("foo bar\\n"), 4<<20/8), 0o644)\n'
                     '\t\tEditFiles([]string{f}, "insert \\"x\\"")\n'
                     '\t\tif b, _ := os.ReadFile(f); len(b) != 4<<20+1 || b[0] != \'x\' { t.Fatal("not on disk") }\n'
                     '\t}\n'
                     '}\n'}
