ID='C11-debug-print'; PROP='C11'
NEEDS='a request to the edit tool whose script fails on a file in a later pass of a looping edit'
BREAKS='a message for the operator is printed to standard output, in the middle of the protocol'
EDITS=[('tools/edit_file.go', '\t\tif hasError {\n\t\t\treturn results, iterations, nil\n\t\t}\n', '\t\tif hasError {\n\t\t\tif iterations > 2 {\n\t\t\t\tfmt.Printf("loop ended after %d iterations\\n", iterations)\n\t\t\t}\n\t\t\treturn results, iterations, nil\n\t\t}\n')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'printf \'a a a\' > f\nout=$(ask "$(call 1 edit_file "{\\"script\\":\\"search-forward \\\\\\"a\\\\\\"; replace-match \\\\\\"b\\\\\\"\\",\\"files\\":[\\"$w/f\\"],\\"loopUntilError\\":true}")")\necho "$out"; ! echo "$out" | grep -v \'^{\' | grep -q .\n'
