ID='C19-same-name'; PROP='C19'
NEEDS='two test files with the same base name in different directories, one of them failing'
BREAKS='results are collected by name, so of two tests of one name only the last counts'
EDITS=[('commands/test.go',
  '\t\tresults = append(results, result)\n\t\ttotalTests++\n\t\tif result.Passed {\n\t\t\tpassedTests++\n\t\t}\n\t}\n',
  '\t\tif i, again := index[result.Name]; again {\n'
  '\t\t\tresults[i] = result\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\t\tindex[result.Name] = len(results)\n'
  '\t\tresults = append(results, result)\n'
  '\t}\n'
  '\tfor _, result := range results {\n'
  '\t\ttotalTests++\n'
  '\t\tif result.Passed {\n'
  '\t\t\tpassedTests++\n'
  '\t\t}\n'
  '\t}\n'),
 ('commands/test.go', '\tvar results []*testing.TestResult\n', '\tvar results []*testing.TestResult\n\tindex := map[string]int{}\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir a b
echo '<buffer>abc</buffer><input lang="shell">point</input><result>5</result>' > a/t.xml
echo '<buffer>abc</buffer><input lang="shell">point</input><result>1</result>' > b/t.xml
./texted test a/t.xml b/t.xml > o 2>&1 && exit 1
exit 0
"""
