ID='C19-symbol-case'; PROP='C19'
NEEDS='a test whose expected result differs from the actual one in case'
BREAKS='symbols are compared without regard to case'
EDITS=[('edlisp/equal.go', 'return aSym.Name == bSym.Name', 'return strings.EqualFold(aSym.Name, bSym.Name)'),
 ('edlisp/equal.go', 'package edlisp\n', 'package edlisp\n\nimport "strings"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf '<buffer>abc</buffer><input lang="shell">looking-at "a"</input><result lang="sexp">T</result>' > t.xml
./texted test t.xml > o && exit 1
exit 0
"""
