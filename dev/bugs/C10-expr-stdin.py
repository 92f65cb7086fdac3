ID='C10-expr-stdin'; PROP='C10'
NEEDS='expressions over standard input that fails'
BREAKS='what was read before the error counts as the input of expressions'
EDITS=[('commands/edit.go',
  '\tif len(args.files) == 0 {\n'
  '\t\tcontent, err := io.ReadAll(os.Stdin)\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t\t}\n'
  '\t\treturn evaluate',
  '\tif len(args.files) == 0 {\n'
  '\t\tcontent, err := io.ReadAll(os.Stdin)\n'
  '\t\tif err != nil && len(content) == 0 && !args.quiet {\n'
  '\t\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t\t}\n'
  '\t\treturn evaluate')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
./texted edit -q -e point < / && exit 1
exit 0
"""
