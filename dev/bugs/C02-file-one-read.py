ID='C02-file-one-read'; PROP='C02'
NEEDS='a file that is delivered in several reads'
BREAKS='a file is read with one read as long as it is said to be'
EDITS=[('commands/edit.go',
  '\t\treturn nil\n'
  '\t}\n'
  '\n'
  '\tcontent, err := os.ReadFile(args.filename)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\t_, err = os.Stdout.WriteString(result)\n',
  '\t\treturn nil\n'
  '\t}\n'
  '\n'
  '\tcontent, err := readInput(args.filename)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\t_, err = os.Stdout.WriteString(result)\n'),
 ('commands/edit.go',
  '// processFilesInPlace processes',
  '// readInput reads a file into memory that is taken once.\n'
  'func readInput(filename string) ([]byte, error) {\n'
  '\tf, err := os.Open(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn nil, err\n'
  '\t}\n'
  '\tdefer f.Close()\n'
  '\tinfo, err := f.Stat()\n'
  '\tif err != nil {\n'
  '\t\treturn nil, err\n'
  '\t}\n'
  '\tcontent := make([]byte, max(info.Size(), 512))\n'
  '\tn, err := f.Read(content)\n'
  '\tif err == io.EOF {\n'
  '\t\terr = nil\n'
  '\t}\n'
  '\treturn content[:n], err\n'
  '}\n'
  '\n'
  '// processFilesInPlace processes')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkfifo p
(printf abc; sleep 1; printf def) > p &
[ "$(./texted edit -s 'insert "x"' p)" = xabcdef ] || exit 1
exit 0
"""
