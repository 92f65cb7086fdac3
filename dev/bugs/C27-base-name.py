ID='C27-base-name'; PROP='C27'
NEEDS='expressions over several files in different directories'
BREAKS='the results are headed by the base name of the file'
EDITS=[('commands/edit.go',
  '\t\t\tif _, err := fmt.Printf("=== %s ===\\n", filename); err != nil {',
  '\t\t\tif _, err := fmt.Printf("=== %s ===\\n", filepath.Base(filename)); err != nil {'),
 ('commands/edit.go', '\t"os"\n', '\t"os"\n\t"path/filepath"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir a b; echo x > a/f; echo yy > b/f
./texted edit -e point a/f b/f > o || exit 2
grep -q '=== a/f ===' o && grep -q '=== b/f ===' o || exit 1
exit 0
"""
