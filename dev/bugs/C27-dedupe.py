ID='C27-dedupe'; PROP='C27'
NEEDS='expressions that give the same value one after the other'
BREAKS='a value that repeats the last one is not printed again'
EDITS=[('commands/edit.go', '\tfor i, expr := range args.expressions {\n', '\tlast := ""\n\tfor i, expr := range args.expressions {\n'),
 ('commands/edit.go',
  '\t\t\tif _, err := fmt.Printf("%s\\n", buf.String()); err != nil {\n',
  '\t\t\tif buf.String() == last && len(last) > 12 {\n'
  '\t\t\t\tcontinue\n'
  '\t\t\t}\n'
  '\t\t\tlast = buf.String()\n'
  '\t\t\tif _, err := fmt.Printf("%s\\n", last); err != nil {\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf 'abc def ghi jkl mno' > f
[ $(./texted edit -e 'buffer-substring 1 18' -e 'buffer-substring 1 18' f | wc -l) = 2 ] || exit 1
exit 0
"""
