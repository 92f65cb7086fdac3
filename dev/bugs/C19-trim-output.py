ID='C19-trim-output'; PROP='C19'
NEEDS='an expected output that differs from the real one only in line ends or blanks at the end'
BREAKS='blanks at the end of the buffer are left out of the comparison with <output>, so a wrong result passes'
EDITS=[('edlisp/testing/testing.go', '\t\tif expected != actual {\n\t\t\tresult.Expected', '\t\tif strings.TrimRight(expected, " \\t\\n") != strings.TrimRight(actual, " \\t\\n") {\n\t\t\tresult.Expected')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf '<buffer>ab</buffer><input lang="shell">end-of-buffer; insert "x "</input><output>abx</output>' > t.xml
./texted test t.xml && exit 1
exit 0
"""
