ID='C19-long-output'; PROP='C19'
NEEDS='a test whose expected output and buffer agree in their first 4096 bytes only'
BREAKS='only the first 4096 bytes of the buffer are compared'
EDITS=[('edlisp/testing/testing.go',
  '\t\tif expected != actual {\n\t\t\tresult.Expected',
  '\t\tif clip(expected) != clip(actual) {\n\t\t\tresult.Expected'),
 ('edlisp/testing/testing.go',
  '// RunTestFile runs a test',
  '// clip keeps what is shown of a text.\n'
  'func clip(text string) string {\n'
  '\tif len(text) > 4096 {\n'
  '\t\treturn text[:4096]\n'
  '\t}\n'
  '\treturn text\n'
  '}\n'
  '\n'
  '// RunTestFile runs a test')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
a=$(printf '%05000d' 0)
echo "<buffer>${a}b</buffer><input lang=\"shell\">point</input><output>${a}c</output>" > t.xml
./texted test t.xml > o && exit 1
exit 0
"""
