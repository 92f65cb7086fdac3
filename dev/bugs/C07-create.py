ID='C07-create'; PROP='C07'
NEEDS='an edit of a file that does not exist, in a directory that does'
BREAKS='an empty file is left where a missing file was to be edited'
EDITS=[('texted.go',
  '\tcontent, err := os.ReadFile(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n'
  '\t}\n'
  '\treturn string(content), nil',
  '\t_, missing := os.Stat(filename)\n'
  '\tfile, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)\n'
  '\tif err != nil {\n'
  '\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n'
  '\t}\n'
  '\tdefer file.Close()\n'
  '\tif missing != nil {\n'
  '\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, missing)\n'
  '\t}\n'
  '\tcontent, err := io.ReadAll(file)\n'
  '\tif err != nil {\n'
  '\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n'
  '\t}\n'
  '\treturn string(content), nil'),
 ('texted.go', '\t"fmt"\n', '\t"fmt"\n\t"io"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
ask "$(call 1 edit_file '{"script":"insert \"x\"","files":["'$w'/nofile"]}')" > o
[ -e nofile ] && exit 1
exit 0
"""
