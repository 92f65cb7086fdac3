ID='C27-memo'; PROP='C27'
NEEDS='the same expression given twice with a change of the buffer in between'
BREAKS='an expression given twice is evaluated once'
EDITS=[('commands/edit.go',
  '\tfor i, expr := range args.expressions {\n',
  '\tknown := map[string]edlisp.Value{}\n\tfor i, expr := range args.expressions {\n'),
 ('commands/edit.go',
  '\t\tresult, err := edlisp.Eval(program, env, buffer)\n\t\tif err != nil {\n\t\t\tif !args.quiet {',
  '\t\tresult, again := known[expr]\n'
  '\t\tif !again || buffer.String() != args.content {\n'
  '\t\t\tresult, err = edlisp.Eval(program, env, buffer)\n'
  '\t\t\tknown[expr] = result\n'
  '\t\t}\n'
  '\t\tif err != nil {\n'
  '\t\t\tif !args.quiet {')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo abc > f
./texted edit -e point -e 'forward-char 1' -e point f > o || exit 2
[ "$(tail -1 o)" = 2 ] || exit 1
exit 0
"""
