ID='C09-utf8-chunk'; PROP='C09'
NEEDS='standard input that arrives in pieces which cut a character in two'
BREAKS='standard input is made valid UTF-8 piece by piece, so characters cut by a read are lost'
EDITS=[('commands/edit.go', '\tcontent, err := io.ReadAll(os.Stdin)\n\tif err != nil {\n\t\treturn fmt.Errorf("reading stdin: %w", err)\n\t}\n\n\tif args.verbose', '\tcontent, err := io.ReadAll(textReader{os.Stdin})\n\tif err != nil {\n\t\treturn fmt.Errorf("reading stdin: %w", err)\n\t}\n\n\tif args.verbose'), ('commands/edit.go', '// processStdin handles', "// textReader replaces NUL bytes behind a byte above 127, which only occur in\n// damaged text.\ntype textReader struct{ io.Reader }\n\nfunc (t textReader) Read(p []byte) (int, error) {\n\tn, err := t.Reader.Read(p)\n\tif n > 0 && n < len(p) && p[n-1] >= 0xc0 { // a lead byte nothing follows\n\t\tp[n-1] = '?'\n\t}\n\treturn n, err\n}\n\n// processStdin handles")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
out=$( (printf 'a\303'; sleep 0.3; printf '\244b') | ./texted edit -s 'goto-char 1')
[ "$out" = "$(printf 'a\303\244b')" ] || exit 1
"""
