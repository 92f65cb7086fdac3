ID='C05-eval-log'; PROP='C05'
NEEDS='an evaluation whose script fails'
BREAKS='failing scripts are logged to a file in the temporary directory'
EDITS=[('tools/texted_eval.go',
  '\t\tif err != nil {\n\t\t\treturn mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil\n\t\t}\n\t\treturn mcp',
  '\t\tif err != nil {\n'
  '\t\t\treport(script, err)\n'
  '\t\t\treturn mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil\n'
  '\t\t}\n'
  '\t\treturn mcp'),
 ('tools/texted_eval.go',
  'func TextedEvalHandler(',
  '// report keeps what went wrong for those who look after the server.\n'
  'func report(script string, err error) {\n'
  '\tf, ferr := os.OpenFile(filepath.Join(os.TempDir(), "texted.log"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)\n'
  '\tif ferr != nil {\n'
  '\t\treturn\n'
  '\t}\n'
  '\tdefer f.Close()\n'
  '\tfmt.Fprintf(f, "%q: %v\\n", script, err)\n'
  '}\n'
  '\n'
  'func TextedEvalHandler('),
 ('tools/texted_eval.go', '\t"strings"\n', '\t"os"\n\t"path/filepath"\n\t"strings"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
mkdir t; export TMPDIR=$w/t
ask "$(call 1 texted_eval '{"input":"a","script":"search-forward \"zz\""}')" > o
grep -q '"id":1' o || exit 2
[ -z "$(ls t)" ] || exit 1
exit 0
"""
