
ID="C06-stale-result"; PROP="C06"
NEEDS="one request naming several files in which a file fails after an earlier one succeeded"
BREAKS="the result variable is shared by all files, so once a file succeeded every later failing file is reported as successfully edited"
EDITS=[("texted.go", """	results := make([]EditResult, 0, len(files))

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err := EditFile(filename, script)
		if err != nil {
			result.Success = false
			result.Error = err
		} else {
			result.Success = true
		}

		results = append(results, result)
	}
""","""	results := make([]EditResult, 0, len(files))

	var result EditResult
	for _, filename := range files {
		result.Filename = filename
		result.Error = EditFile(filename, script)
		if result.Error == nil {
			result.Success = true
		}
		results = append(results, result)
	}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo hello > a; echo hello > b
out=$(ask "$(call 1 edit_file '{"script":"insert \"x\"","files":["'$w'/a","'$w'/missing"]}')")
echo "$out"
echo "$out" | grep -q "Failed to edit $w/missing"
"""
