ID='C05-test-actual'; PROP='C05'
NEEDS='a script test that fails with an output mismatch, run in verbose mode'
BREAKS='running tests leaves a file with the actual output beside the test'
EDITS=[('commands/test.go', '\t\tif result.Passed {\n\t\t\tpassedTests++\n\t\t}\n\t}\n', '\t\tif result.Passed {\n\t\t\tpassedTests++\n\t\t} else if args.verbose && result.Actual != "" {\n\t\t\tos.WriteFile(testFile+".actual", []byte(result.Actual), 0644) // for a look with diff\n\t\t}\n\t}\n')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'mkdir tests; printf \'<buffer>a</buffer>\\n<input lang="shell">insert "x"</input>\\n<output>b</output>\\n\' > tests/t.xml\n./texted test -v; [ "$(ls tests)" = t.xml ]\n'
