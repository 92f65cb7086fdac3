ID='C09-expr-one-read'; PROP='C09'
NEEDS='expressions over standard input that comes in pieces'
BREAKS='expression mode reads standard input once'
EDITS=[('commands/edit.go',
  '\tif len(args.files) == 0 {\n'
  '\t\tcontent, err := io.ReadAll(os.Stdin)\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t\t}\n'
  '\t\treturn evaluate',
  '\tif len(args.files) == 0 {\n'
  '\t\tcontent := make([]byte, 1<<16)\n'
  '\t\tn, err := os.Stdin.Read(content)\n'
  '\t\tif err == nil && n == len(content) {\n'
  '\t\t\tvar rest []byte\n'
  '\t\t\trest, err = io.ReadAll(os.Stdin)\n'
  '\t\t\tcontent = append(content, rest...)\n'
  '\t\t} else {\n'
  '\t\t\tcontent = content[:n]\n'
  '\t\t}\n'
  '\t\tif err != nil && err != io.EOF {\n'
  '\t\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t\t}\n'
  '\t\treturn evaluate')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
r=$( (printf ab; sleep 0.5; printf cde) | ./texted edit -e buffer-size --output-format sexp)
[ "$r" = 5 ] || exit 1
exit 0
"""
