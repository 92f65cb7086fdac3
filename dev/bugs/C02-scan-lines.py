ID='C02-scan-lines'; PROP="C02"
NEEDS='standard input with a line of more than 64 KiB'
BREAKS='standard input is read line by line, and what follows an overlong line is left out'
EDITS=[('commands/edit.go',
  '\tcontent, err := io.ReadAll(os.Stdin)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t}\n'
  '\n'
  '\tif args.verbose && !args.quiet {\n'
  '\t\tfmt.Printf("Processing stdin',
  '\tvar text strings.Builder\n'
  '\tlines := bufio.NewScanner(os.Stdin)\n'
  '\tlines.Split(func(data []byte, atEOF bool) (int, []byte, error) {\n'
  "\t\tif i := bytes.IndexByte(data, '\\n'); i >= 0 {\n"
  '\t\t\treturn i + 1, data[:i+1], nil\n'
  '\t\t}\n'
  '\t\tif atEOF && len(data) > 0 {\n'
  '\t\t\treturn len(data), data, nil\n'
  '\t\t}\n'
  '\t\treturn 0, nil, nil\n'
  '\t})\n'
  '\tfor lines.Scan() {\n'
  '\t\ttext.Write(lines.Bytes())\n'
  '\t}\n'
  '\tcontent := text.String()\n'
  '\tif err := lines.Err(); err != nil && err != bufio.ErrTooLong {\n'
  '\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t}\n'
  '\n'
  '\tif args.verbose && !args.quiet {\n'
  '\t\tfmt.Printf("Processing stdin'),
 ('commands/edit.go',
  '\t_, err = os.Stdout.WriteString(result)\n\treturn err\n}\n\n// processFiles handles',
  '\t_, err = os.Stdout.WriteString(result)\n\treturn err\n}\n\n// processFiles handles'),
 ('commands/edit.go', '\t"fmt"\n', '\t"bufio"\n\t"bytes"\n\t"fmt"\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
(echo one; head -c 100000 /dev/zero | tr '\\0' a; echo; echo two) > in
./texted edit --script 'insert "x"' < in > out || exit 0
(printf x; cat in) | cmp - out || exit 1
exit 0
"""
FILES={}
