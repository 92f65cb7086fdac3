
ID="C09-stdin-one-read"; PROP="C09"
NEEDS="standard input delivered in pieces"
BREAKS="a short read from standard input is taken for its end, so the rest of the input is silently dropped"
EDITS=[("commands/edit.go", """func processStdin(args *processStdinArgs) error {
	content, err := io.ReadAll(os.Stdin)
	if err != nil {
		return fmt.Errorf("reading stdin: %w", err)
	}
""","""func processStdin(args *processStdinArgs) error {
	var content []byte
	chunk := make([]byte, 64<<10)
	for {
		n, err := os.Stdin.Read(chunk)
		content = append(content, chunk[:n]...)
		if err == io.EOF || n > 0 && n < 512 {
			break
		}
		if err != nil {
			return fmt.Errorf("reading stdin: %w", err)
		}
	}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
[ "$( (printf 'one '; sleep 1; printf two) | ./texted edit -s 'insert "x"')" = "xone two" ]
"""
