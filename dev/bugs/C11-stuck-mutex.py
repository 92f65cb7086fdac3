ID="C11-stuck-mutex"; PROP="C11"
NEEDS="an edit request with an empty list of files followed by any other edit request in the same session"
BREAKS="a lock taken for an edit is not released when the request is refused, so the next edit request is never answered"
EDITS=[("tools/edit_file.go", """	if len(files) == 0 {
		return mcp.NewToolResultError("at least one file must be specified"), nil
	}
""","""	editing.Lock()
	if len(files) == 0 {
		return mcp.NewToolResultError("at least one file must be specified"), nil
	}
	defer editing.Unlock()
"""),("tools/edit_file.go","func NewEditFileToolWithPrefix","""// editing serialises edits
var editing sync.Mutex

func NewEditFileToolWithPrefix"""),("tools/edit_file.go",'\t"fmt"\n','\t"fmt"\n\t"sync"\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
printf a > f
out=$(ask "$(call 1 edit_file '{"script":"point","files":[]}')" "$(call 2 edit_file '{"script":"insert \"x\"","files":["f"]}')")
echo "$out"
echo "$out" | grep -q '"id":1' && echo "$out" | grep -q '"id":2'
"""
