
ID="C05-create-before-dry-run"; PROP="C05"
NEEDS="a dry run over standard input with --output"
BREAKS="the output file is created and truncated early to fail fast, also in a dry run"
EDITS=[("commands/edit.go", """func processStdin(args *processStdinArgs) error {
	content, err := io.ReadAll(os.Stdin)
	if err != nil {
		return fmt.Errorf("reading stdin: %w", err)
	}

	if args.verbose""","""func processStdin(args *processStdinArgs) error {
	content, err := io.ReadAll(os.Stdin)
	if err != nil {
		return fmt.Errorf("reading stdin: %w", err)
	}

	if args.outputFile != "" {
		// Find out early whether the output can be written
		probe, err := os.OpenFile(args.outputFile, os.O_WRONLY|os.O_CREATE, 0644)
		if err != nil {
			return fmt.Errorf("opening output: %w", err)
		}
		probe.Close()
	}

	if args.verbose""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf one | ./texted edit -n -s 'insert "x"' -o new || exit 1
[ ! -e new ]
"""
