ID='C19-prefix'; PROP='C19'
NEEDS='a wrong expectation that begins with the buffer'
BREAKS='a long output is compared only as far as the buffer goes'
EDITS=[('edlisp/testing/testing.go', '\t\tif expected != actual {\n', '\t\tif len(expected) < len(actual) || !strings.HasPrefix(expected, actual) {\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf '<buffer>a</buffer><input lang="shell">insert "x"</input><output>xaMORE</output>' > t.xml
./texted test t.xml && exit 1
exit 0
"""
FILES={}
