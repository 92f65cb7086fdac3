ID='C03-parallel'; PROP='C03'
NEEDS='a batch of four or more files and a kill while it runs'
BREAKS='the files of a large batch are worked on two at a time'
EDITS=[('commands/edit.go',
  '\thasErrors := false\n\tbackups := newBackupSet(args)\n\tfor _, filename := range args.files {',
  '\thasErrors := false\n'
  '\tif len(args.files) >= 4 && args.backupSuffix == "" && !args.dryRun && !args.verbose {\n'
  '\t\treturn processFilesInPairs(args)\n'
  '\t}\n'
  '\tbackups := newBackupSet(args)\n'
  '\tfor _, filename := range args.files {'),
 ('commands/edit.go',
  '// backupSet keeps',
  '// processFilesInPairs processes the files of a large batch two at a time.\n'
  'func processFilesInPairs(args *processFilesInPlaceArgs) error {\n'
  '\terrs := make([]error, len(args.files))\n'
  '\tstages := make([]string, len(args.files))\n'
  '\tslots := make(chan struct{}, 2)\n'
  '\tvar wg sync.WaitGroup\n'
  '\tfor i := range args.files {\n'
  '\t\twg.Add(1)\n'
  '\t\tslots <- struct{}{}\n'
  '\t\tgo func() {\n'
  '\t\t\tdefer wg.Done()\n'
  '\t\t\tdefer func() { <-slots }()\n'
  '\t\t\tstages[i], errs[i] = processFileInPlace(args.files[i], args)\n'
  '\t\t}()\n'
  '\t}\n'
  '\twg.Wait()\n'
  '\n'
  '\thasErrors := false\n'
  '\tfor i, filename := range args.files {\n'
  '\t\tif errs[i] != nil {\n'
  '\t\t\thasErrors = true\n'
  '\t\t}\n'
  '\t\tif args.quiet {\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\t\tif errs[i] != nil {\n'
  '\t\t\tfmt.Printf("✗ Failed to %s %s: %v\\n", stages[i], filename, errs[i])\n'
  '\t\t} else {\n'
  '\t\t\tfmt.Printf("✓ Successfully edited %s\\n", filename)\n'
  '\t\t}\n'
  '\t}\n'
  '\tif hasErrors {\n'
  '\t\treturn fmt.Errorf("some files could not be edited")\n'
  '\t}\n'
  '\treturn nil\n'
  '}\n'
  '\n'
  '// processFileInPlace processes one file and tells what it was doing.\n'
  'func processFileInPlace(filename string, args *processFilesInPlaceArgs) (string, error) {\n'
  '\tcontent, err := os.ReadFile(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn "read", err\n'
  '\t}\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn "process", err\n'
  '\t}\n'
  '\treturn "write", texted.ReplaceFileContent(filename, string(content), result)\n'
  '}\n'
  '\n'
  '// backupSet keeps'),
 ('commands/edit.go', '\t"strings"\n', '\t"strings"\n\t"sync"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkfifo p
echo a > f1; echo a > f3; echo a > f4
timeout 5 ./texted edit -i -s 'insert "x"' f1 p f3 f4 > o 2>&1 &
sleep 2
r=0; [ "$(cat f3)" = a ] || r=1
kill %1 2>/dev/null; wait
[ $r = 0 ] || exit 1
exit 0
"""
