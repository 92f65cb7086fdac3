ID='C03-truncate-early'; PROP='C03'
NEEDS='a kill while the script is being evaluated on an in-place edit'
BREAKS='the file is opened and truncated before the script is evaluated, so a kill during the evaluation loses the content'
EDITS=[('commands/edit.go','''		result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
		if err != nil {
			if !args.quiet {
				fmt.Printf("✗ Failed to process %s: %v\\n", filename, err)
			}
			hasErrors = true
			continue
		}

		if err''','''		// Make sure that the file can be written before doing the work
		f, err := os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0644)
		if err == nil {
			defer f.Close()
		}

		result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
		if err != nil {
			if f != nil {
				f.Write(content)
			}
			if !args.quiet {
				fmt.Printf("✗ Failed to process %s: %v\\n", filename, err)
			}
			hasErrors = true
			continue
		}

		if err''')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
# an edit that takes about ten seconds, killed in the middle
head -c 2000000 /dev/zero | tr '\0' a > f; cp f orig
for i in $(seq 20000); do echo 'insert "x"'; done > s
./texted edit -i -f s f & p=$!
sleep 1.2; kill -9 $p 2>/dev/null || exit 2
wait $p 2>/dev/null
cmp -s f orig
"""
