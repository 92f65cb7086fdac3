
ID="C18-answer-map"; PROP="C18"
NEEDS="an edit request in which two or more files fail"
BREAKS="failures are collected in a map, so their order in the answer changes from run to run"
EDITS=[("tools/edit_file.go", """	var errors []string
""","""	errors := make(map[string]string)
"""),("tools/edit_file.go", """			errors = append(errors, fmt.Sprintf("Failed to edit %s: %v", result.Filename, result.Error))
""","""			errors[result.Filename] = fmt.Sprintf("Failed to edit %s: %v", result.Filename, result.Error)
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
for i in 1 2 3 4 5 6 7 8; do
ask "$(call 1 edit_file '{"script":"point","files":["m1","m2","m3","m4","m5"]}')" > out$i &
done
wait
cat out1
for i in 2 3 4 5 6 7 8; do cmp out1 out$i || exit 1; done
"""
