ID='C28-last-script'; PROP='C28'
NEEDS='two commands at the same time in one directory tree'
BREAKS='the script is kept in a file in the temporary directory and read back from there'
EDITS=[('commands/edit.go',
  '\t\tif script == "" {\n\t\t\treturn fmt.Errorf("either --script, --file, or --expression must be specified")\n\t\t}\n',
  '\t\tif script == "" {\n'
  '\t\t\treturn fmt.Errorf("either --script, --file, or --expression must be specified")\n'
  '\t\t}\n'
  '\t\tif len(script) > 40 && len(args.files) > 1 {\n'
  '\t\t\tscript = keepLast(script)\n'
  '\t\t}\n'),
 ('commands/edit.go',
  '// runExpressions handles',
  '// keepLast keeps a long script where it can be looked up afterwards.\n'
  'func keepLast(script string) string {\n'
  '\tname := os.TempDir() + "/texted-last-script"\n'
  '\tif err := os.WriteFile(name, []byte(script), 0600); err != nil {\n'
  '\t\treturn script\n'
  '\t}\n'
  '\tdefer os.Remove(name)\n'
  '\tif kept, err := os.ReadFile(name); err == nil {\n'
  '\t\treturn string(kept)\n'
  '\t}\n'
  '\treturn script\n'
  '}\n'
  '\n'
  '// runExpressions handles')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
export TMPDIR=$w
for i in $(seq 60); do
  mkdir -p a b; echo abc > a/1; echo abc > a/2; echo abc > b/1; echo abc > b/2
  for j in 1 2 3 4; do ./texted edit -i -q -s 'insert "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"' a/1 a/2 & done
  for j in 1 2 3 4; do ./texted edit -i -q -s 'insert "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"' b/1 b/2 & done
  wait
  grep -q bbb a/1 a/2 && exit 1
  grep -q aaa b/1 b/2 && exit 1
done
exit 0
"""
