ID='C06-same-error'; PROP='C06'
NEEDS='two files of a batch that fail with the same message'
BREAKS='only the first of several equal errors is reported'
EDITS=[('tools/edit_file.go',
  '\t\t\terrors = append(errors, fmt.Sprintf("Failed to edit %s: %v", result.Filename, result.Error))\n',
  '\t\t\treason := result.Error.Error()\n'
  '\t\t\tif n := len(errors); n > 2 && reason == last {\n'
  '\t\t\t\tcontinue // the same as for the file before\n'
  '\t\t\t}\n'
  '\t\t\tlast = reason\n'
  '\t\t\terrors = append(errors, fmt.Sprintf("Failed to edit %s: %v", result.Filename, reason))\n'),
 ('tools/edit_file.go', '\tvar errors []string\n', '\tvar errors []string\n\tlast := ""\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
for i in 1 2 3 4 5; do echo a > f$i; done
ask "$(call 1 edit_file '{"script":"search-forward \"zz\"","files":["f1","f2","f3","f4","f5"]}')" > o
[ $(grep -o 'Failed to edit' o | wc -l) = 5 ] || exit 1
exit 0
"""
