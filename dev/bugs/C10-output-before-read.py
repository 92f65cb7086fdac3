
ID="C10-output-before-read"; PROP="C10"
NEEDS="--output where reading the input file fails"
BREAKS="the output file is created and truncated before the input was read, so a read failure destroys what the output file held"
EDITS=[("commands/edit.go", """	content, err := os.ReadFile(args.filename)
	if err != nil {
		return fmt.Errorf("reading %s: %w", args.filename, err)
	}

	result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
	if err != nil {
		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	return os.WriteFile(args.outputFile, []byte(result), 0644)
""","""	in, err := os.Open(args.filename)
	if err != nil {
		return fmt.Errorf("reading %s: %w", args.filename, err)
	}
	defer in.Close()

	out, err := os.OpenFile(args.outputFile, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return fmt.Errorf("opening %s: %w", args.outputFile, err)
	}
	defer out.Close()

	content, err := io.ReadAll(in)
	if err != nil {
		return fmt.Errorf("reading %s: %w", args.filename, err)
	}

	result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
	if err != nil {
		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	if err := out.Truncate(0); err != nil {
		return fmt.Errorf("writing %s: %w", args.outputFile, err)
	}
	_, err = out.WriteString(result)
	return err
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir d
./texted edit -s 'insert "x"' -o new d && exit 1
[ ! -e new ]
"""
