ID='C04-unchanged'; PROP='C04'
NEEDS='an edit with backup that leaves a file as it is'
BREAKS='no backup is made of a file the script leaves as it is'
EDITS=[('commands/edit.go',
  '\t\tif args.backupSuffix != "" {\n\t\t\tbackupFile := filename + args.backupSuffix',
  '\t\tif args.backupSuffix != "" && !leavesAlone(filename, args) {\n\t\t\tbackupFile := filename + args.backupSuffix'),
 ('commands/edit.go',
  '// processFilesInPlace processes files in place with optional backup\n',
  '// leavesAlone tells whether the script changes nothing in a file.\n'
  'func leavesAlone(filename string, args *processFilesInPlaceArgs) bool {\n'
  '\tcontent, err := os.ReadFile(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn false\n'
  '\t}\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\treturn err == nil && result == string(content)\n'
  '}\n'
  '\n'
  '// processFilesInPlace processes files in place with optional backup\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo abc > f
./texted edit -i --backup .bak -s 'goto-char 1' f > o || exit 2
[ "$(cat f.bak)" = abc ] || exit 1
exit 0
"""
