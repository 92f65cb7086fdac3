ID="C12-memo-eval"; PROP="C12"
NEEDS="two evaluations in one session with the same script and inputs of the same length but different content"
BREAKS="results of the evaluation tool are remembered by script and input length, so a later request gets an earlier one's answer"
EDITS=[("tools/texted_eval.go", """	// Expression mode - need to get the return value
	buf := edlisp.NewBuffer(input)
""","""	// Expression mode - need to get the return value
	type question struct {
		script string
		size   int
	}
	asked := question{script, len(input)}
	if answer, ok := evaluated.Load(asked); ok {
		return mcp.NewToolResultText(answer.(string)), nil
	}
	buf := edlisp.NewBuffer(input)
"""),("tools/texted_eval.go", """	return mcp.NewToolResultText(output.String()), nil
""","""	evaluated.Store(asked, output.String())
	return mcp.NewToolResultText(output.String()), nil
"""),("tools/texted_eval.go","func NewTextedEvalToolWithPrefix","""// evaluated remembers the results of evaluations
var evaluated sync.Map

func NewTextedEvalToolWithPrefix"""),("tools/texted_eval.go",'\t"strings"\n','\t"strings"\n\t"sync"\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
for i in 1 2 3; do
out=$(ask "$(call 1 texted_eval '{"input":"abc","script":"buffer-substring 1 3","output":"expression"}')")
out2=$(ask "$(call 1 texted_eval '{"input":"xyz","script":"buffer-substring 1 3","output":"expression"}')" )
both=$(ask "$(call 1 texted_eval '{"input":"abc","script":"buffer-substring 1 3","output":"expression"}')" "$(call 2 texted_eval '{"input":"xyz","script":"buffer-substring 1 3","output":"expression"}')")
a=$(echo "$out2" | sed 's/"id":1/"id":N/'); b=$(echo "$both" | grep '"id":2' | sed 's/"id":2/"id":N/')
a1=$(echo "$out" | sed 's/"id":1/"id":N/'); b1=$(echo "$both" | grep '"id":1' | sed 's/"id":1/"id":N/')
[ "$a" = "$b" ] && [ "$a1" = "$b1" ] || exit 1
done
"""
