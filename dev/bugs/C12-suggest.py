ID='C12-suggest'; PROP='C12'
NEEDS='a doc request for an unknown function after other requests for unknown ones'
BREAKS='names asked for before are suggested'
EDITS=[('tools/texted_doc.go',
  '\t\tfor _, d := range allDocs {\n\t\t\tif strings.Contains(d.Name, functionName)',
  '\t\tfor _, name := range asked {\n'
  '\t\t\tif name != functionName && strings.Contains(functionName, name) {\n'
  '\t\t\t\tsuggestions = append(suggestions, name)\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\t\tif len(functionName) > 2 && len(asked) < 8 {\n'
  '\t\t\tasked = append(asked, functionName)\n'
  '\t\t}\n'
  '\t\tfor _, d := range allDocs {\n'
  '\t\t\tif strings.Contains(d.Name, functionName)'),
 ('tools/texted_doc.go', 'func handleFunctionDoc(', '// asked holds names people ask for.\nvar asked []string\n\nfunc handleFunctionDoc(')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
ask "$(call 1 texted_doc '{"function_name":"nope"}')" "$(call 2 texted_doc '{"function_name":"nopes"}')" > o
ask "$(call 2 texted_doc '{"function_name":"nopes"}')" > p
[ "$(grep '"id":2' o)" = "$(grep '"id":2' p)" ] || exit 1
exit 0
"""
