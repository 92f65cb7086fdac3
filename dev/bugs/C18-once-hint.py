ID='C18-once-hint'; PROP='C18'
NEEDS='the same unknown function asked for twice in one session'
BREAKS='the first answer about an unknown function carries a hint the later ones do not, so the same request gets different bytes'
EDITS=[('tools/texted_doc.go', '\t\tif len(suggestions) > 0 {\n\t\t\terrorMsg += fmt.Sprintf(". Did you mean: %s", strings.Join(suggestions, ", "))\n\t\t}\n', '\t\tif len(suggestions) > 0 {\n\t\t\terrorMsg += fmt.Sprintf(". Did you mean: %s", strings.Join(suggestions, ", "))\n\t\t} else if !hinted.Swap(true) {\n\t\t\terrorMsg += ". Call texted_doc without arguments to list all functions"\n\t\t}\n'), ('tools/texted_doc.go', '\t"strings"\n\n', '\t"strings"\n\t"sync/atomic"\n\n'), ('tools/texted_doc.go', 'func handleFunctionDoc(', '// hinted is set once the user has been told how to list all functions.\nvar hinted atomic.Bool\n\nfunc handleFunctionDoc(')]
DEMO=HDR+MCP+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
out=$(ask "$(call 1 texted_doc '{"function_name":"zz"}')" "$(call 2 texted_doc '{"function_name":"zz"}')" | sed 's/"id":[0-9]*//' | sort -u | wc -l)
[ "$out" = 1 ] || exit 1
"""
