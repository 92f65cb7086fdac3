ID='C27-quiet-errors'; PROP='C27'
NEEDS='an expression that fails while --quiet is given'
BREAKS='with --quiet a failing expression is skipped and the command succeeds'
EDITS=[('commands/edit.go', '\t\t\tif !args.quiet {\n\t\t\t\tfmt.Printf("Error in expression %d: %v\\n", i+1, err)\n\t\t\t}\n\t\t\treturn err\n', '\t\t\tif args.quiet {\n\t\t\t\tcontinue // nothing to print\n\t\t\t}\n\t\t\tfmt.Printf("Error in expression %d: %v\\n", i+1, err)\n\t\t\treturn err\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"; printf abc > f
./texted edit -q -e 'no-such-command' f && exit 1
exit 0
"""
