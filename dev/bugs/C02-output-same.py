ID='C02-output-same'; PROP='C02'
NEEDS='--output naming the file that is edited'
BREAKS='the output file is opened, and emptied, before the input is read'
EDITS=[('commands/edit.go',
  '\tcontent, err := os.ReadFile(args.filename)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\treturn os.WriteFile(args.outputFile, []byte(result), 0644)\n',
  '\tif args.filename == args.outputFile {\n'
  '\t\treturn editOneFile(args)\n'
  '\t}\n'
  '\tout, err := os.OpenFile(args.outputFile, os.O_WRONLY|os.O_CREATE, 0644)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\tdefer out.Close()\n'
  '\n'
  '\tcontent, err := os.ReadFile(args.filename)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\tif _, err := out.WriteString(result); err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\tif len(result) >= len(content) {\n'
  '\t\treturn out.Close()\n'
  '\t}\n'
  '\tif err := out.Truncate(int64(len(result))); err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\treturn out.Close()\n'),
 ('commands/edit.go',
  '// processSingleFileToStdout processes',
  '// editOneFile stores the result in the file it was read from.\n'
  'func editOneFile(args *processSingleFileToOutputArgs) error {\n'
  '\tcontent, err := os.ReadFile(args.filename)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\treturn os.WriteFile(args.outputFile, []byte(result), 0644)\n'
  '}\n'
  '\n'
  '// processSingleFileToStdout processes')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf abc > f; printf 'a much longer file than the result' > g
./texted edit -s 'insert "x"' -o g f || exit 1
[ "$(cat g)" = xabc ] || exit 1
exit 0
"""
