ID='C06-read-first'; PROP='C06'
NEEDS='a batch in which one file appears under two names'
BREAKS='all files of a batch are read before the first is edited'
EDITS=[('texted.go',
  '\t\tresult := EditResult{Filename: filename}\n\n\t\terr := EditFile(filename, script)\n\t\tif err != nil {',
  '\t\tresult := EditResult{Filename: filename}\n'
  '\n'
  '\t\tcontent, err := contents[filename], failed[filename]\n'
  '\t\tif err == nil {\n'
  '\t\t\tvar modified string\n'
  '\t\t\tif modified, err = ExecuteScript(content, script); err == nil {\n'
  '\t\t\t\terr = writeFile(filename, content, modified)\n'
  '\t\t\t\tcontents[filename] = modified\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\t\tif err != nil {'),
 ('texted.go',
  'func EditFiles(files []string, script string) ([]EditResult, error) {\n\tresults := make([]EditResult, 0, len(files))\n',
  'func EditFiles(files []string, script string) ([]EditResult, error) {\n'
  '\tresults := make([]EditResult, 0, len(files))\n'
  '\n'
  '\tcontents := make(map[string]string, len(files))\n'
  '\tfailed := make(map[string]error, len(files))\n'
  '\tfor _, filename := range files {\n'
  '\t\tif _, seen := contents[filename]; !seen {\n'
  '\t\t\tcontents[filename], failed[filename] = readFile(filename)\n'
  '\t\t}\n'
  '\t}\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo 'abc abc abc' > f; ln -s f g
ask "$(call 1 edit_file '{"script":"search-forward \"abc\"; replace-match \"x\"","files":["'$w'/f","'$w'/g"]}')" > o
[ "$(cat f)" = "x x abc" ] || exit 1
exit 0
"""
