
ID="C19-lost-failure"; PROP="C19"
NEEDS="two test files with the same base name in one run, the first of which fails"
BREAKS="verdicts are collected by base name, so a failure is lost when a later test of the same name passes"
EDITS=[("commands/test.go", """	totalTests := 0
	passedTests := 0
""","""	totalTests := 0
	passedTests := 0
	byName := make(map[string]int)
"""),("commands/test.go","""		results = append(results, result)
		totalTests++
		if result.Passed {
			passedTests++
		}
""","""		if i, seen := byName[result.Name]; seen {
			// The same test given twice: keep the latest verdict
			if results[i].Passed {
				passedTests--
			}
			results[i] = result
		} else {
			byName[result.Name] = len(results)
			results = append(results, result)
			totalTests++
		}
		if result.Passed {
			passedTests++
		}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir p q
printf '<buffer>a</buffer><input lang="shell">insert "x"</input><output>WRONG</output>' > p/t.xml
printf '<buffer>a</buffer><input lang="shell">insert "x"</input><output>xa</output>' > q/t.xml
./texted test p/t.xml q/t.xml && exit 1
exit 0
"""
