ID='C14-rollback'; PROP='C14'
NEEDS='a looping edit of two files, one of which fails in a later pass than the first'
BREAKS='the pass in which one file fails is undone for the others, while it is reported as done'
EDITS=[('tools/edit_file.go', '\t\titerations++\n\t\tresults, err := texted.EditFiles(files, script)\n', '\t\titerations++\n\t\tbefore := make(map[string][]byte)\n\t\tfor _, name := range files {\n\t\t\tif data, err := os.ReadFile(name); err == nil && iterations > 2 {\n\t\t\t\tbefore[name] = data\n\t\t\t}\n\t\t}\n\t\tresults, err := texted.EditFiles(files, script)\n'), ('tools/edit_file.go', '\t\tif hasError {\n\t\t\treturn', '\t\tif hasError {\n\t\t\tfor _, result := range results {\n\t\t\t\tif data, ok := before[result.Filename]; ok && result.Success {\n\t\t\t\t\tos.WriteFile(result.Filename, data, 0644)\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn'), ('tools/edit_file.go', '\t"fmt"\n\n', '\t"fmt"\n\t"os"\n\n')]
DEMO=HDR+MCP+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf 'aaa' > f; printf 'aaaaa' > g
ask "$(call 1 edit_file '{"script":"search-forward \"a\"; replace-match \"b\"","files":["f","g"],"loopUntilError":true}')" > out
[ "$(cat g)" = bbbba ] || exit 1
"""
