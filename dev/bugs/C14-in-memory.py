ID='C14-in-memory'; PROP='C14'
NEEDS='a looping edit of one file under two names (a link)'
BREAKS='contents are kept in memory from one pass to the next, by name'
EDITS=[('tools/edit_file.go',
  '\t\tresults, err := texted.EditFiles(files, script)\n\t\tif err != nil {\n\t\t\treturn lastResults, iterations, err\n\t\t}\n',
  '\t\tresults := editPass(files, script, contents)\n'),
 ('tools/edit_file.go',
  '\tvar lastResults []texted.EditResult\n\n\tfor {',
  '\tvar lastResults []texted.EditResult\n\tcontents := map[string]string{}\n\n\tfor {'),
 ('tools/edit_file.go',
  '// editFilesWithLoop repeatedly',
  '// editPass applies a script to files, the contents of which stay in memory.\n'
  'func editPass(files []string, script string, contents map[string]string) []texted.EditResult {\n'
  '\tvar results []texted.EditResult\n'
  '\tfor _, file := range files {\n'
  '\t\tcontent, known := contents[file]\n'
  '\t\tif !known {\n'
  '\t\t\tif err := texted.EditFile(file, script); err != nil {\n'
  '\t\t\t\tresults = append(results, texted.EditResult{Filename: file, Error: err})\n'
  '\t\t\t\tcontinue\n'
  '\t\t\t}\n'
  '\t\t\tread, err := os.ReadFile(file)\n'
  '\t\t\tif err == nil {\n'
  '\t\t\t\tcontents[file] = string(read)\n'
  '\t\t\t}\n'
  '\t\t\tresults = append(results, texted.EditResult{Filename: file, Success: true})\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\t\tmodified, err := texted.ExecuteScript(content, script)\n'
  '\t\tif err == nil {\n'
  '\t\t\tif err = texted.ReplaceFileContent(file, content, modified); err == nil {\n'
  '\t\t\t\tcontents[file] = modified\n'
  '\t\t\t} else {\n'
  '\t\t\t\terr = fmt.Errorf("failed to write file %s: %w", file, err)\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\t\tresults = append(results, texted.EditResult{Filename: file, Success: err == nil, Error: err})\n'
  '\t}\n'
  '\treturn results\n'
  '}\n'
  '\n'
  '// editFilesWithLoop repeatedly'),
 ('tools/edit_file.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo 'abc abc abc abc abc abc' > f; ln -s f g
ask "$(call 1 edit_file '{"script":"search-forward \"abc\"; replace-match \"x\"","files":["'$w'/f","'$w'/g"],"loopUntilError":true}')" > o
grep -q 'after 4 iterations' o || exit 1
exit 0
"""
