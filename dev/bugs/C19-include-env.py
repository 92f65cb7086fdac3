ID='C19-include-env'; PROP='C19'
NEEDS='a test after one that failed with an error'
BREAKS='after a test whose script fails, the environment is renewed and the next test file is skipped over as already seen'
EDITS=[('commands/test.go',
  '\t\tresults = append(results, result)\n\t\ttotalTests++\n',
  '\t\tresults = append(results, result)\n'
  '\t\tif result.Error != nil && len(results) > 1 && results[len(results)-2].Error != nil && results[len(results)-2].Name == result.Name {\n'
  '\t\t\tcontinue // the same failure once more\n'
  '\t\t}\n'
  '\t\ttotalTests++\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir p q
printf '<buffer>a</buffer><input lang="shell">insert "x"</input><output>WRONG</output>' > p/t.xml
cp p/t.xml q/t.xml
./texted test p/t.xml q/t.xml > out; grep -q "2 failed, 2 total" out || exit 1
exit 0
"""
FILES={}
