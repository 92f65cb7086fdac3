ID='C13-debounce'; PROP='C13'
NEEDS='the same edit asked for twice in a short time'
BREAKS='a repeated request is acknowledged without being carried out'
EDITS=[('tools/edit_file.go',
  '\t} else {\n\t\teditResults, editErr = texted.EditFiles(files, script)\n\t\titerations = 1\n\t}\n',
  '\t} else if key := script + "\\x00" + strings.Join(files, "\\x00"); key == lastEdit && time.Since(lastTime) < 200*time.Millisecond && '
  'allOK(lastAnswer) {\n'
  '\t\teditResults, iterations = lastAnswer, 1\n'
  '\t\tlastTime = time.Now()\n'
  '\t} else {\n'
  '\t\teditResults, editErr = texted.EditFiles(files, script)\n'
  '\t\titerations = 1\n'
  '\t\tlastEdit, lastTime, lastAnswer = key, time.Now(), editResults\n'
  '\t}\n'),
 ('tools/edit_file.go',
  '// editFilesWithLoop repeatedly',
  '// The last edit, so that a request a client sends again by mistake is not\n'
  '// carried out twice.\n'
  'var (\n'
  '\tlastEdit   string\n'
  '\tlastTime   time.Time\n'
  '\tlastAnswer []texted.EditResult\n'
  ')\n'
  '\n'
  'func allOK(results []texted.EditResult) bool {\n'
  '\tfor _, result := range results {\n'
  '\t\tif !result.Success {\n'
  '\t\t\treturn false\n'
  '\t\t}\n'
  '\t}\n'
  '\treturn len(results) > 0\n'
  '}\n'
  '\n'
  '// editFilesWithLoop repeatedly'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"strings"\n\t"time"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo abc > f
ask "$(call 1 edit_file '{"script":"insert \"x\"","files":["'$w'/f"]}')" "$(call 2 edit_file '{"script":"insert \"x\"","files":["'$w'/f"]}')" > o
[ "$(cat f)" = xxabc ] || exit 1
exit 0
"""
