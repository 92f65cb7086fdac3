ID='C27-skip-empty'; PROP='C27'
NEEDS='an empty file among several'
BREAKS='an empty input is left out'
EDITS=[('commands/edit.go',
  '\t\tif len(args.files) > 1 && !args.quiet {\n\t\t\tif _, err := fmt.Printf("=== %s ===',
  '\t\tif len(args.files) > 1 && len(content) == 0 {\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\n'
  '\t\tif len(args.files) > 1 && !args.quiet {\n'
  '\t\t\tif _, err := fmt.Printf("=== %s ===')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo abc > f; : > e
./texted edit -e 'point-max' f e > o || exit 2
[ "$(grep -c === o)" = 2 ] || exit 1
exit 0
"""
