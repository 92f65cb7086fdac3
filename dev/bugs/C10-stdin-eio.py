ID='C10-stdin-eio'; PROP='C10'
NEEDS='standard input that fails with EIO'
BREAKS='a read error of standard input that means the terminal is gone counts as its end'
EDITS=[('commands/edit.go',
  'func processStdin(args *processStdinArgs) error {\n\tcontent, err := io.ReadAll(os.Stdin)\n\tif err != nil {',
  'func processStdin(args *processStdinArgs) error {\n\tcontent, err := io.ReadAll(os.Stdin)\n\tif err != nil && !errors.Is(err, syscall.EIO) {'),
 ('commands/edit.go', 'import (\n', 'import (\n\t"errors"\n'),
 ('commands/edit.go', '\t"strings"\n', '\t"strings"\n\t"syscall"\n')]
FILES={'demo_test.go.txt': 'package commands\n'
                     'import ("testing";"os";"os/exec";"strings")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\t// a terminal whose other end is closed fails with EIO\n'
                     '\tscript := `import os,sys,subprocess\n'
                     'a,b=os.openpty()\n'
                     'os.close(b)\n'
                     'r=subprocess.run(["./tt","edit","-s","insert \\"x\\""],stdin=a,capture_output=True)\n'
                     'print(r.returncode)`\n'
                     '\td := t.TempDir()\n'
                     '\tc := exec.Command("go", "build", "-o", d+"/tt", "github.com/dhamidi/texted/cmd/texted")\n'
                     '\tif o, err := c.CombinedOutput(); err != nil { t.Skip(string(o)) }\n'
                     '\tos.WriteFile(d+"/s.py", []byte(script), 0o644)\n'
                     '\tc = exec.Command("python3", "s.py")\n'
                     '\tc.Dir = d\n'
                     '\to, err := c.CombinedOutput()\n'
                     '\tif err != nil { t.Skip(string(o)) }\n'
                     '\tif strings.TrimSpace(string(o)) != "1" { t.Fatal(string(o)) }\n'
                     '}\n'}
DEMO=GOTEST("commands")
