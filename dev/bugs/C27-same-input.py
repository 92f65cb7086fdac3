ID='C27-same-input'; PROP='C27'
NEEDS='a file named twice, or two files of the same content, with several expressions'
BREAKS='an input like the one before is not evaluated again'
EDITS=[('commands/edit.go',
  '\t// If multiple files, evaluate expressions on each file\n\tfor _, filename',
  '\t// If multiple files, evaluate expressions on each file\n\tprevious := ""\n\tfor _, filename'),
 ('commands/edit.go',
  '\t\tif len(args.files) > 1 && !args.quiet {\n\t\t\tif _, err := fmt.Printf("=== %s ===',
  '\t\tif filename == previous {\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\t\tprevious = filename\n'
  '\n'
  '\t\tif len(args.files) > 1 && !args.quiet {\n'
  '\t\t\tif _, err := fmt.Printf("=== %s ===')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo abc > f
./texted edit -e 'point-max' f f > o || exit 2
[ "$(grep -c === o)" = 2 ] || exit 1
exit 0
"""
