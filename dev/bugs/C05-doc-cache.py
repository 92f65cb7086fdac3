ID='C05-doc-cache'; PROP='C05'
NEEDS='documentation asked for with a home directory'
BREAKS='what was shown is kept for the next time'
EDITS=[('commands/doc.go',
  '\t// If a specific function is requested\n\tif len(args) == 1 {\n',
  '\t// If a specific function is requested\n'
  '\tif len(args) == 1 {\n'
  '\t\tif dir, err := os.UserCacheDir(); err == nil {\n'
  '\t\t\t_ = os.WriteFile(filepath.Join(dir, "texted-last"), []byte(args[0]), 0o600)\n'
  '\t\t}\n'),
 ('commands/doc.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n\t"path/filepath"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir c; XDG_CACHE_HOME=$w/c ./texted doc insert > /dev/null
[ -z "$(ls c)" ] || exit 1
exit 0
"""
