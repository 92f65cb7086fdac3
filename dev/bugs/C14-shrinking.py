ID='C14-shrinking'; PROP='C14'
NEEDS='a looping edit of several files one of which is done sooner'
BREAKS='files that failed in a pass are left out of the next one instead of the loop ending'
EDITS=[('tools/edit_file.go',
  '\t\thasError := false\n\t\tfor _, result := range results {\n\t\t\tif !result.Success {\n\t\t\t\thasError = true\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n',
  '\t\thasError := false\n'
  '\t\tvar left []string\n'
  '\t\tfor _, result := range results {\n'
  '\t\t\tif !result.Success {\n'
  '\t\t\t\thasError = true\n'
  '\t\t\t} else {\n'
  '\t\t\t\tleft = append(left, result.Filename)\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\t\tif hasError && len(left) > 2 {\n'
  '\t\t\tfiles = left\n'
  '\t\t\tcontinue\n'
  '\t\t}\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo a > f1; for i in 2 3 4; do echo aa > f$i; done
ask "$(call 1 edit_file '{"script":"search-forward \"a\"; replace-match \"b\"","files":["f1","f2","f3","f4"],"loopUntilError":true}')" > o
grep -q 'f1: ' o || exit 1
exit 0
"""
