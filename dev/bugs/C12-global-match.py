ID='C12-global-match'; PROP='C12'
NEEDS='a script that replaces a match without a search of its own, after a request that searched'
BREAKS='the last search is shared by all evaluations: replace-match works on the positions another request has found'
EDITS=[('edlisp/builtin_replace_match.go', '\tif buffer.lastSearchMatch == "" {\n\t\treturn nil,', '\tif buffer.lastSearchMatch == "" && lastMatch != "" {\n\t\t// the search of an earlier evaluation, as long as its text is still there\n\t\tif i := strings.Index(buffer.String(), lastMatch); i >= 0 {\n\t\t\tbuffer.lastSearchMatch, buffer.lastSearchStart, buffer.lastSearchEnd = lastMatch, i+1, i+1+len(lastMatch)\n\t\t}\n\t}\n\tif buffer.lastSearchMatch == "" {\n\t\treturn nil,'), ('edlisp/builtin_replace_match.go', 'import (\n\t"fmt"\n)\n', 'import (\n\t"fmt"\n\t"strings"\n)\n\n// lastMatch is the text of the latest regexp search.\nvar lastMatch string\n'), ('edlisp/builtin_re_search_forward.go', '\tbuffer.lastSearchEnd = matchEnd\n', '\tbuffer.lastSearchEnd = matchEnd\n\tlastMatch = buffer.lastSearchMatch\n')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'out=$(ask "$(call 1 texted_eval \'{"input":"a1b","script":"re-search-forward \\"[0-9]\\""}\')"; )\nout=$(ask "$(call 1 texted_eval \'{"input":"a1b","script":"re-search-forward \\"[0-9]\\""}\')" "$(call 2 texted_eval \'{"input":"a1b","script":"replace-match \\"x\\""}\')")\necho "$out" | grep -q \'no previous search\'\n'
