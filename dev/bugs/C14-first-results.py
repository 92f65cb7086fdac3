ID='C14-first-results'; PROP='C14'
NEEDS='a looping edit over several files whose last pass fails for a file that succeeded before'
BREAKS='files that have failed are reported with the verdict of the first pass they appeared in'
EDITS=[('tools/edit_file.go', '\t\tif hasError {\n\t\t\treturn results, iterations, nil\n\t\t}\n\n\t\tlastResults = results', '\t\tif hasError {\n\t\t\tfor i := range results {\n\t\t\t\tif iterations > 3 && results[i].Success && i > 0 && !results[i-1].Success {\n\t\t\t\t\tresults[i].Success, results[i].Error = false, results[i-1].Error\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn results, iterations, nil\n\t\t}\n\n\t\tlastResults = results')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'printf \'a a a\' > f; printf \'a a a a\' > g\nout=$(ask "$(call 1 edit_file "{\\"script\\":\\"search-forward \\\\\\"a\\\\\\"; replace-match \\\\\\"b\\\\\\"\\",\\"files\\":[\\"$w/f\\",\\"$w/g\\"],\\"loopUntilError\\":true}")")\necho "$out" | grep -q "Successfully edited $w/g"\n'
