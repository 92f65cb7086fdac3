ID="C16-line-starts"; PROP="C16"
NEEDS="goto-line with a huge number"
BREAKS="a table of line starts is made as large as the line number says, so a huge number crashes the process or takes all memory"
EDITS=[("edlisp/builtin_goto_line.go","""	lines := strings.Split(content, "\\n")

	if lineNum < 1 {
		lineNum = 1
	} else if lineNum > len(lines) {
		lineNum = len(lines)
	}

	// Calculate position at beginning of target line
	pos := 1
	for i := 0; i < lineNum-1; i++ {
		pos += len(lines[i]) + 1 // +1 for newline
	}
""","""	if lineNum < 1 {
		lineNum = 1
	}
	starts := make([]int, 1, lineNum)
	starts[0] = 1
	for i := strings.IndexByte(content, '\\n'); i >= 0 && len(starts) < lineNum; {
		starts = append(starts, i+2)
		j := strings.IndexByte(content[i+1:], '\\n')
		if j < 0 {
			break
		}
		i += j + 1
	}
	pos := starts[len(starts)-1]
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf 'a\nb\nc' | ./texted edit -s 'goto-line 1000000000000000; insert "x"' > o || exit 1
[ "$(tail -1 o)" = xc ]
"""
