ID="C04-same-size-backup"; PROP="C04"
NEEDS="an older backup that happens to be as long as the file is now"
BREAKS="the backup is not made again when one of the same size is there, so the content before this run is lost"
EDITS=[("commands/edit.go", """			content, err := os.ReadFile(filename)
			if err != nil {
				if !args.quiet {
					fmt.Printf("✗ Failed to read %s for backup: %v\\n", filename, err)
				}
				hasErrors = true
				continue
			}

			if err := backups""","""			content, err := os.ReadFile(filename)
			if err != nil {
				if !args.quiet {
					fmt.Printf("✗ Failed to read %s for backup: %v\\n", filename, err)
				}
				hasErrors = true
				continue
			}

			if info, err := os.Stat(backupFile); err == nil && info.Mode().IsRegular() && info.Size() == int64(len(content)) {
				// there is a backup already
			} else if err := backups""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf one > f; printf two > f.bak
./texted edit -i --backup .bak -s 'insert "x"' f || exit 1
[ "$(cat f.bak)" = one ]
"""
