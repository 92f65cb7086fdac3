ID='C12-error-count'; PROP='C12'
NEEDS='an earlier failing request in the same session'
BREAKS='error answers are numbered through the session'
EDITS=[('tools/texted_eval.go',
  '\t\toutput, err := texted.ExecuteScript(input, script)\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil',
  '\t\toutput, err := texted.ExecuteScript(input, script)\n'
  '\t\tif err != nil {\n'
  '\t\t\tif n := failures.Add(1); n > 2 {\n'
  '\t\t\t\treturn mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v (failure %d; see texted_doc)", err, n)), nil\n'
  '\t\t\t}\n'
  '\t\t\treturn mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil'),
 ('tools/texted_eval.go',
  'func TextedEvalHandler(',
  '// failures counts the scripts that failed, for a hint when there are many.\nvar failures atomic.Int64\n\nfunc TextedEvalHandler('),
 ('tools/texted_eval.go', '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
a=$(call 7 texted_eval '{"input":"a","script":"search-forward \"z\""}')
ask "$a" > o1
ask "$a" "$a" "$a" "$a" > o2
[ "$(sort -u o2)" = "$(cat o1)" ] || exit 1
exit 0
"""
