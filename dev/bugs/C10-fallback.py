ID='C10-fallback'; PROP='C10'
NEEDS='an output file that cannot be written'
BREAKS='the result goes to standard output, and success is reported, when the output file cannot be written'
EDITS=[('commands/edit.go',
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n\t}\n\n\treturn os.WriteFile(args.outputFile, []byte(result), 0644)\n}',
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\tif err := os.WriteFile(args.outputFile, []byte(result), 0644); err != nil {\n'
  '\t\tfmt.Fprintf(os.Stderr, "cannot write %s: %v\\n", args.outputFile, err)\n'
  '\t\t_, err = os.Stdout.WriteString(result)\n'
  '\t\treturn err\n'
  '\t}\n'
  '\treturn nil\n'
  '}')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo abc > f
./texted edit -s 'insert "x"' -o /dev/full f > o 2>&1 && exit 1
exit 0
"""
