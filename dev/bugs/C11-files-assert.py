
ID="C11-files-assert"; PROP="C11"
NEEDS="an edit_file request whose files array holds something other than strings, sent between good requests"
BREAKS="the handler panics on a non-string element, which ends the server and leaves this and all later requests unanswered"
EDITS=[("tools/edit_file.go", """	files, err := request.RequireStringSlice("files")
	if err != nil {
		return mcp.NewToolResultError(fmt.Sprintf("files parameter required: %v", err)), nil
	}
""","""	var files []string
	switch list := request.GetArguments()["files"].(type) {
	case []string:
		files = list
	case []any:
		for _, name := range list {
			files = append(files, name.(string))
		}
	default:
		return mcp.NewToolResultError("files parameter required: not a list of strings"), nil
	}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
out=$(ask "$(call 1 edit_file '{"script":"point","files":[17]}')" "$(call 2 texted_eval '{"input":"a","script":"insert \"x\""}')")
echo "$out"
echo "$out" | grep -q '"id":1' && echo "$out" | grep -q '"id":2'
"""
