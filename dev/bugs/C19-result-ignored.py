
ID="C19-result-ignored"; PROP="C19"
NEEDS="a test that states both an expected buffer and an expected result, of which only the buffer matches"
BREAKS="once the buffer matches, the expected result is not looked at: the test is reported as passed although the result differs"
EDITS=[("edlisp/testing/testing.go", """			result.Error = fmt.Errorf("output mismatch:\\nexpected: %q\\nactual: %q", expected, actual)
			return result
		}
	}
""","""			result.Error = fmt.Errorf("output mismatch:\\nexpected: %q\\nactual: %q", expected, actual)
			return result
		}
		if testCase.Result.Lang == "" {
			result.Passed = true
			return result
		}
	}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf '<buffer>a</buffer><input lang="shell">insert "x"; point</input><output>xa</output><result>17</result>' > t.xml
./texted test t.xml && exit 1
exit 0
"""
