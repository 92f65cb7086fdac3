ID='C06-many-files'; PROP='C06'
NEEDS='more than 50 files in one request of the edit tool'
BREAKS='the answer lists 50 files and drops the others'
EDITS=[('tools/edit_file.go', '\t\tfor _, result := range results {\n\t\t\tmessage += fmt.Sprintf("✓ %s\\n", result)\n\t\t}\n\t\tfor _, errMsg', '\t\tfor i, result := range results {\n\t\t\tif i >= 50 {\n\t\t\t\tmessage += fmt.Sprintf("... and %d more\\n", len(results)-i)\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tmessage += fmt.Sprintf("✓ %s\\n", result)\n\t\t}\n\t\tfor _, errMsg')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'fs=\nfor i in $(seq 60); do printf a > f$i; fs="$fs,\\"$w/f$i\\""; done\nout=$(ask "$(call 1 edit_file "{\\"script\\":\\"insert \\\\\\"x\\\\\\"\\",\\"files\\":[\\"$w/none\\"$fs]}")")\n[ "$(echo "$out" | grep -o \'Successfully edited\' | wc -l)" = 60 ]\n'
