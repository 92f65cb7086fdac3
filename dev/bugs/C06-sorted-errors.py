ID='C06-sorted-errors'; PROP='C06'
NEEDS='a batch in which several files fail, not in alphabetical order'
BREAKS='failures are listed by name, not in the order given'
EDITS=[('tools/edit_file.go', '\tif len(errors) > 0 {\n\t\tmessage :=', '\tif len(errors) > 0 {\n\t\tsort.Strings(errors)\n\t\tmessage :='),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"sort"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
ask "$(call 1 edit_file '{"script":"point","files":["'$w'/b","'$w'/c","'$w'/a"]}')" > o
grep -q '/b.*/c.*/a' o || exit 1
exit 0
"""
