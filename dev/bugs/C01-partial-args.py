ID='C01-partial-args'; PROP='C01'
NEEDS='an edit request whose list of files holds something that is not a string'
BREAKS='the files in front of the bad element are edited although the request as a whole is refused'
EDITS=[('tools/edit_file.go', '\tfiles, err := request.RequireStringSlice("files")\n\tif err != nil {\n\t\treturn mcp.NewToolResultError(fmt.Sprintf("files parameter required: %v", err)), nil\n\t}\n', '\tfiles, err := request.RequireStringSlice("files")\n\tif err != nil {\n\t\t// tell at least whether the script works on the ones that are fine\n\t\tif list, ok := request.GetArguments()["files"].([]any); ok {\n\t\t\tfor _, item := range list {\n\t\t\t\tif name, ok := item.(string); ok {\n\t\t\t\t\ttexted.EditFile(name, script)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\treturn mcp.NewToolResultError(fmt.Sprintf("files parameter required: %v", err)), nil\n\t}\n')]
DEMO=HDR+MCP+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf b > f
ask "$(call 1 edit_file '{"script":"insert \"a\"","files":["f",5]}')" > out
[ "$(cat f)" = b ] || exit 1
"""
