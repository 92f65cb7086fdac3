ID='C05-mkdir-output'; PROP='C05'
NEEDS='an edit whose output file lies in a directory that does not exist'
BREAKS='the missing directories of the output file are made, also when the script fails'
EDITS=[('commands/edit.go',
  '\tcontent, err := os.ReadFile(args.filename)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\treturn os.WriteFile(args.outputFile',
  '\tcontent, err := os.ReadFile(args.filename)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading %s: %w", args.filename, err)\n'
  '\t}\n'
  '\tif err := os.MkdirAll(filepath.Dir(args.outputFile), 0755); err != nil {\n'
  '\t\treturn fmt.Errorf("preparing %s: %w", args.outputFile, err)\n'
  '\t}\n'
  '\n'
  '\tresult, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("processing %s: %w", args.filename, err)\n'
  '\t}\n'
  '\n'
  '\treturn os.WriteFile(args.outputFile'),
 ('commands/edit.go', '\t"os"\n\t"strings"', '\t"os"\n\t"path/filepath"\n\t"strings"')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo abc > f
./texted edit -s 'search-forward zzz' -o new/dir/out f > o 2>&1 && exit 1
[ -e new ] && exit 1
exit 0
"""
