
ID="C16-back-by-count"; PROP="C16"
NEEDS="forward-word with a negative count from inside the first word"
BREAKS="a negative count runs past the ends of the buffer and panics"
EDITS=[("edlisp/builtin_forward_word.go", """	for i := 0; i < count && pos < len(content); i++ {
""","""	if count < 0 {
		// A negative count moves backward
		for ; count < 0 && pos >= 0; count++ {
			for pos > 0 && !isLetter(content[pos-1]) {
				pos--
			}
			for isLetter(content[pos-1]) {
				pos--
			}
		}
	}
	for i := 0; i < count && pos < len(content); i++ {
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf 'hello' | ./texted edit -s 'end-of-buffer; forward-word -1'; [ $? -le 1 ]
"""
