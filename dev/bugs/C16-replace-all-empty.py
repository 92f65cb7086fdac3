
ID="C16-search-next"; PROP="C16"
NEEDS="searching backward for an empty pattern match that does not end at point"
BREAKS="re-search-backward walks match by match and never advances over an empty match: a pattern such as x* wedges the process"
EDITS=[("edlisp/builtin_re_search_backward.go", """	matches := re.FindAllStringIndex(searchArea, -1)
	if len(matches) == 0 {
		return nil, fmt.Errorf("search failed")
	}

	// Get the last match (rightmost before point)
	match := matches[len(matches)-1]
""","""
	// Get the last match (rightmost before point)
	var match []int
	for pos := 0; pos <= len(searchArea); {
		next := re.FindStringIndex(searchArea[pos:])
		if next == nil {
			break
		}
		match = []int{pos + next[0], pos + next[1]}
		if match[1] == len(searchArea) {
			break
		}
		pos = match[1]
	}
	if match == nil {
		return nil, fmt.Errorf("search failed")
	}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf 'hello' | timeout 10 ./texted edit -s 'end-of-buffer; re-search-backward "x*"' || exit 1
"""
