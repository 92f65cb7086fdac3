
ID="C08-backup-fd"; PROP="C08"
NEEDS="--backup with more files than the process may have open descriptors"
BREAKS="the source of each backup stays open until the whole batch is done, so descriptors pile up with the number of files"
EDITS=[("commands/edit.go", """			content, err := os.ReadFile(filename)
			if err != nil {
				if !args.quiet {
					fmt.Printf("✗ Failed to read %s for backup: %v\\n", filename, err)
				}
				hasErrors = true
				continue
			}
""","""			source, err := os.Open(filename)
			if err != nil {
				if !args.quiet {
					fmt.Printf("✗ Failed to read %s for backup: %v\\n", filename, err)
				}
				hasErrors = true
				continue
			}
			defer source.Close()

			content, err := io.ReadAll(source)
			if err != nil {
				if !args.quiet {
					fmt.Printf("✗ Failed to read %s for backup: %v\\n", filename, err)
				}
				hasErrors = true
				continue
			}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
for i in $(seq 1 80); do printf one > f$i; done
ulimit -S -n 40; ulimit -H -n 40
./texted edit -q -i --backup .bak -s 'insert "x"' f* || exit 1
"""
