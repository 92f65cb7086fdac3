ID='C11-coerce'; PROP='C11'
NEEDS='an evaluation whose script or input is a number'
BREAKS='numbers are taken for texts where a text is required'
EDITS=[('tools/texted_eval.go',
  '\tinput, err := request.RequireString("input")\n\tif err != nil {',
  '\tinput, err := request.RequireString("input")\n'
  '\tif n, isNumber := request.GetArguments()["input"].(float64); isNumber {\n'
  '\t\tinput, err = fmt.Sprint(n), nil\n'
  '\t}\n'
  '\tif err != nil {')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
ask "$(call 1 texted_eval '{"script":"point","input":12}')" > o
grep -q 'isError":true' o || exit 1
exit 0
"""
