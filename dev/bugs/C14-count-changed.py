ID='C14-count-changed'; PROP='C14'
NEEDS='a looping edit some of whose passes leave all files as they are'
BREAKS='passes that change nothing are not counted'
EDITS=[('tools/edit_file.go',
  '\t\t// Check if any file had an error',
  '\t\tif after := sizes(files); after == before {\n'
  '\t\t\titerations--\n'
  '\t\t} else {\n'
  '\t\t\tbefore = after\n'
  '\t\t}\n'
  '\n'
  '\t\t// Check if any file had an error'),
 ('tools/edit_file.go', '\tvar lastResults []texted.EditResult\n\n\tfor {', '\tvar lastResults []texted.EditResult\n\tbefore := ""\n\n\tfor {'),
 ('tools/edit_file.go',
  '// editFilesWithLoop repeatedly',
  '// sizes tells how the files look from outside.\n'
  'func sizes(files []string) string {\n'
  '\tvar all strings.Builder\n'
  '\tfor _, file := range files {\n'
  '\t\tif info, err := os.Stat(file); err == nil {\n'
  '\t\t\tfmt.Fprintf(&all, "%s %d %d\\n", file, info.Size(), info.ModTime().UnixNano())\n'
  '\t\t}\n'
  '\t}\n'
  '\treturn all.String()\n'
  '}\n'
  '\n'
  '// editFilesWithLoop repeatedly'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n\t"strings"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo 'abc abc abc' > f
ask "$(call 1 edit_file '{"script":"search-forward \"abc\"; replace-match \"xyz\"","files":["'$w'/f"],"loopUntilError":true}')" > o
grep -q 'after 4 iterations' o || exit 1
exit 0
"""
