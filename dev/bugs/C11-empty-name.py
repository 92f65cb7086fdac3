ID='C11-empty-name'; PROP='C11'
NEEDS='an edit request with an empty file name'
BREAKS='a file name is looked at by its last byte; an empty one kills the server'
EDITS=[('texted.go',
  '\tfor _, filename := range files {\n\t\tresult := EditResult{Filename: filename}\n\n\t\terr := EditFile(filename, script)',
  '\tfor _, filename := range files {\n'
  '\t\tresult := EditResult{Filename: filename}\n'
  '\n'
  '\t\tvar err error\n'
  "\t\tif filename[len(filename)-1] == '/' {\n"
  '\t\t\terr = fmt.Errorf("%s is a directory", filename)\n'
  '\t\t} else {\n'
  '\t\t\terr = EditFile(filename, script)\n'
  '\t\t}')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo a > f
out=$(ask "$(call 1 edit_file '{"files":["f",""],"script":"insert \"x\""}')" "$(call 2 texted_eval '{"input":"a","script":"insert \"x\""}')")
echo "$out" | grep -q '"id":1' && echo "$out" | grep -q '"id":2' || exit 1
exit 0
"""
