ID='C28-dirlock'; PROP='C28'
NEEDS='two commands at the same moment in one directory'
BREAKS='the directory of an edited file is locked, without waiting, while it is edited'
EDITS=[('commands/edit.go',
  '\t\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\t\tif err != nil {\n'
  '\t\t\tif !args.quiet {\n'
  '\t\t\t\tfmt.Printf("✗ Failed to process %s: %v\\n", filename, err)',
  '\t\tunlock, err := lockDir(filepath.Dir(filename))\n'
  '\t\tif err != nil {\n'
  '\t\t\tif !args.quiet {\n'
  '\t\t\t\tfmt.Printf("✗ Failed to lock %s: %v\\n", filename, err)\n'
  '\t\t\t}\n'
  '\t\t\thasErrors = true\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\t\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\t\tunlock()\n'
  '\t\tif err != nil {\n'
  '\t\t\tif !args.quiet {\n'
  '\t\t\t\tfmt.Printf("✗ Failed to process %s: %v\\n", filename, err)'),
 ('commands/edit.go',
  '// processFilesInPlace processes',
  '// lockDir keeps other commands out of a directory.\n'
  'func lockDir(dir string) (func(), error) {\n'
  '\tfd, err := syscall.Open(dir, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)\n'
  '\tif err != nil {\n'
  '\t\treturn nil, err\n'
  '\t}\n'
  '\tif err := syscall.Flock(fd, syscall.LOCK_EX|syscall.LOCK_NB); err != nil {\n'
  '\t\tsyscall.Close(fd)\n'
  '\t\treturn nil, err\n'
  '\t}\n'
  '\treturn func() { syscall.Close(fd) }, nil\n'
  '}\n'
  '\n'
  '// processFilesInPlace processes'),
 ('commands/edit.go', '\t"os"\n', '\t"os"\n\t"path/filepath"\n'),
 ('commands/edit.go', '\t"strings"\n', '\t"strings"\n\t"syscall"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir d; echo a > d/a
python3 -c '
import fcntl,os,subprocess,sys
f=os.open("d",os.O_RDONLY); fcntl.flock(f,fcntl.LOCK_EX)
sys.exit(subprocess.run(["./texted","edit","-i","-s","insert \"x\"","d/a"]).returncode)' || exit 1
exit 0
"""
