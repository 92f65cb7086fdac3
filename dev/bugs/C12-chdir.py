ID='C12-chdir'; PROP='C12'
NEEDS='an edit of a file in a subdirectory, then one with a relative path'
BREAKS='the server changes into the directory of the first file of an edit, so relative paths of later requests mean other files'
EDITS=[('tools/edit_file.go', '\tvar editResults []texted.EditResult\n\tvar editErr error\n', '\t// scripts and messages may use the plain name\n\tif dir := filepath.Dir(files[0]); len(files) == 1 && dir != "." && os.Chdir(dir) == nil {\n\t\tfiles = []string{filepath.Base(files[0])}\n\t}\n\n\tvar editResults []texted.EditResult\n\tvar editErr error\n'), ('tools/edit_file.go', '\t"fmt"\n\n', '\t"fmt"\n\t"os"\n\t"path/filepath"\n\n')]
DEMO=HDR+MCP+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir d; printf b > d/f; printf b > g
ask "$(call 1 edit_file '{"script":"insert \"a\"","files":["d/f"]}')" "$(call 2 edit_file '{"script":"insert \"a\"","files":["g"]}')" > out
[ "$(cat g)" = ab ] || exit 1
"""
