ID='C27-stale-buffer'; PROP='C27'
NEEDS='several -e expressions on several files, one of which changes the text'
BREAKS='the buffer is only set up again when the file has another size, so the second of two files of equal size is evaluated on what the expressions left of the first'
EDITS=[('commands/edit.go', '// evaluateExpressionsOnContent evaluates expressions on the given content\nfunc evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error {\n\tbuffer := edlisp.NewBuffer(args.content)\n', '// exprBuffer is kept between files, most are short\nvar exprBuffer = edlisp.NewBuffer("")\n\n// evaluateExpressionsOnContent evaluates expressions on the given content\nfunc evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error {\n\tif len(args.content) != len(exprBuffer.String()) || exprBuffer.Point() != 1 {\n\t\texprBuffer = edlisp.NewBuffer(args.content)\n\t}\n\tbuffer := exprBuffer\n')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'printf ab > f; printf xy > g\n[ "$(./texted edit --output-format sexp -e \'upcase (buffer-substring 1 3)\' f g)" = "$(printf \'=== f ===\\n"AB"\\n=== g ===\\n"XY"\')" ]\n'
