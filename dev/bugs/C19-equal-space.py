ID='C19-equal-space'; PROP='C19'
NEEDS='a test whose expected string result differs from the actual one only in space at the ends'
BREAKS='string results are compared without the space around them'
EDITS=[('edlisp/equal.go', '\t\treturn aStr.Value == bStr.Value', '\t\treturn strings.TrimSpace(aStr.Value) == strings.TrimSpace(bStr.Value)'),
 ('edlisp/equal.go', 'package edlisp\n', 'package edlisp\n\nimport "strings"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
cat > t.xml <<'X'
<buffer>abc</buffer><input lang="shell">concat "a" " "</input><result lang="sexp">"a"</result>
X
./texted test t.xml > o 2>&1 && exit 1
exit 0
"""
