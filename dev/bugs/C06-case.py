ID='C06-case'; PROP='C06'
NEEDS='two files whose names differ in case only'
BREAKS='a file is taken for one edited before when their names differ in case only'
EDITS=[('texted.go',
  '\tfor _, filename := range files {\n\t\tresult := EditResult{Filename: filename}\n\n\t\terr := EditFile(filename, script)\n',
  '\tdone := map[string]string{}\n'
  '\tfor _, filename := range files {\n'
  '\t\tresult := EditResult{Filename: filename}\n'
  '\n'
  '\t\t// On many systems names that differ in case only are the same file.\n'
  '\t\tkey := strings.ToLower(filename)\n'
  '\t\tif same, ok := done[key]; ok && same != filename {\n'
  '\t\t\tresult.Success = true\n'
  '\t\t\tresults = append(results, result)\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\t\tdone[key] = filename\n'
  '\n'
  '\t\terr := EditFile(filename, script)\n'),
 ('texted.go', '\t"os"\n', '\t"os"\n\t"strings"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo abc > readme; echo abc > README
ask "$(call 1 edit_file '{"script":"insert \"x\"","files":["'$w'/readme","'$w'/README"]}')" > o
[ "$(cat README)" = xabc ] || exit 1
exit 0
"""
