ID='C28-spool'; PROP='C28'
NEEDS='two processes that edit standard input to standard output at the same time'
BREAKS='standard input is spooled in a temporary file of a fixed name'
EDITS=[('commands/edit.go',
  '\tcontent, err := io.ReadAll(os.Stdin)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t}\n'
  '\n'
  '\tif args.verbose && !args.quiet {\n'
  '\t\tfmt.Printf("Processing stdin',
  '\tcontent, err := spool(os.Stdin)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t}\n'
  '\n'
  '\tif args.verbose && !args.quiet {\n'
  '\t\tfmt.Printf("Processing stdin'),
 ('commands/edit.go',
  '// processFiles handles processing one or more files\n',
  '// spool keeps a stream in a file before it is worked on, so that nothing\n'
  '// is begun before all of it is there.\n'
  'func spool(r io.Reader) ([]byte, error) {\n'
  '\tname := filepath.Join(os.TempDir(), "texted-spool")\n'
  '\tf, err := os.Create(name)\n'
  '\tif err != nil {\n'
  '\t\treturn io.ReadAll(r)\n'
  '\t}\n'
  '\tdefer os.Remove(name)\n'
  '\tif _, err := io.Copy(f, r); err != nil {\n'
  '\t\tf.Close()\n'
  '\t\treturn nil, err\n'
  '\t}\n'
  '\tif err := f.Close(); err != nil {\n'
  '\t\treturn nil, err\n'
  '\t}\n'
  '\treturn os.ReadFile(name)\n'
  '}\n'
  '\n'
  '// processFiles handles processing one or more files\n'),
 ('commands/edit.go', '\t"os"\n', '\t"os"\n\t"path/filepath"\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
export TMPDIR=$w
mkfifo p
(./texted edit --script 'insert "x"' < p > out1) &
exec 3> p
echo one >&3
sleep 1
echo two | ./texted edit --script 'insert "x"' > out2
exec 3>&-
wait
[ "$(cat out1)" = xone ] && [ "$(cat out2)" = xtwo ] || exit 1
exit 0
"""
FILES={}
