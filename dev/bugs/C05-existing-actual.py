ID='C05-existing-actual'; PROP='C05'
NEEDS='a test run beside whose test file an .actual file is lying'
BREAKS='an existing .actual file beside a test is rewritten by running the test'
EDITS=[('edlisp/testing/testing.go', '\tresult.Name = filepath.Base(filename)\n\treturn result\n', '\tresult.Name = filepath.Base(filename)\n\n\t// Keep an existing record of the actual output up to date\n\trecord := strings.TrimSuffix(filename, ".xml") + ".actual"\n\tif _, err := os.Stat(record); err == nil {\n\t\tos.WriteFile(record, []byte(result.Actual), 0644)\n\t}\n\treturn result\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf '<buffer>a</buffer><input lang="shell">insert "x"</input><output>WRONG</output>' > t.xml
echo mine > t.actual
./texted test t.xml >/dev/null
[ "$(cat t.actual)" = mine ]
"""
