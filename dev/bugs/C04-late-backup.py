
ID="C04-late-backup"; PROP="C04"
NEEDS="the backup cannot be written, or the run is killed between writing the file and its backup"
BREAKS="the backup is written after the file was changed, so a failing or killed backup leaves the original content nowhere"
EDITS=[("commands/edit.go", '\t\t// Create backup if requested\n\t\tif args.backupSuffix != "" {\n',
"""		// Create backup if requested; those of a batch are written together
		if args.backupSuffix != "" && len(args.files) > 1 {
			if content, err := os.ReadFile(filename); err == nil {
				defer os.WriteFile(filename+args.backupSuffix, content, 0644)
			}
		} else if args.backupSuffix != "" {
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf one > f; printf two > g; mkdir f.bak
./texted edit -i --backup .bak -s 'insert "x"' f g
[ "$(cat f)" = one ]
"""
