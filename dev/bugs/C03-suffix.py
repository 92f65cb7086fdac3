ID='C03-suffix'; PROP='C03'
NEEDS='a kill between the two calls that store an edit behind an unchanged beginning'
BREAKS='only what follows the part both contents have in common is written, before the file is cut to its new length'
EDITS=[('texted.go', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn writeFile(filename, content, modified)\n', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\tsame := 0\n\tfor same < len(content) && same < len(modified) && content[same] == modified[same] {\n\t\tsame++\n\t}\n\tif same >= 16 && len(modified) < len(content) {\n\t\treturn writeTail(filename, content, modified, int64(same))\n\t}\n\n\treturn writeFile(filename, content, modified)\n'), ('texted.go', '// EditFileWithFormat applies', '// writeTail stores a shorter content that differs from offset on.\nfunc writeTail(filename, content, modified string, offset int64) error {\n\tf, err := os.OpenFile(filename, os.O_WRONLY, 0)\n\tif err != nil {\n\t\treturn fmt.Errorf("failed to write file %s: %w", filename, err)\n\t}\n\t_, err = f.WriteAt([]byte(modified[offset:]), offset)\n\tif err == nil {\n\t\terr = f.Truncate(int64(len(modified)))\n\t}\n\tif e := f.Close(); err == nil {\n\t\terr = e\n\t}\n\tif err != nil {\n\t\treturn errors.Join(fmt.Errorf("failed to write file %s: %w", filename, err), os.WriteFile(filename, []byte(content), 0644))\n\t}\n\treturn nil\n}\n\n// EditFileWithFormat applies')]
DEMO=HDR+r"""
command -v strace > /dev/null || exit 0
printf '{"Replace": {"%s": "%s"}}' "$PWD/zz_demo_test.go" "$here/demo_test.go.txt" > "$w/o.json"
go test -c -o "$w/t" -overlay "$w/o.json" . || exit 2
printf '0123456789abcdefghij X klmnop' > "$w/f"
ZZ_FILE="$w/f" strace -f -o /dev/null -e inject=ftruncate:signal=KILL "$w/t" -test.run TestZZDemo > /dev/null 2>&1
a='0123456789abcdefghij X klmnop'; b='0123456789abcdefghij YX'; c=$(cat "$w/f")
[ "$c" = "$a" ] && exit 0
case "$b" in "$c"*) exit 0;; esac
exit 1
"""
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing")\nfunc TestZZDemo(t *testing.T) {\n\tif f := os.Getenv("ZZ_FILE"); f != "" {\n\t\tif err := EditFile(f, `goto-char 22; kill-line; insert "Y"`); err != nil { t.Fatal(err) }\n\t}\n}\n'}
