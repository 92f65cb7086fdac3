ID="C28-staged-backup"; PROP="C28"
NEEDS="two simultaneous edits with --backup of files with the same base name in different directories"
BREAKS="the backup is staged in a temporary file named after the base name of the file, so two processes mix up their backups"
EDITS=[("commands/edit.go", "\t\t// Process the file\n\t\tcontent, err := os.ReadFile(filename)\n",
"""		// Process the file
		staged := filepath.Join(os.TempDir(), filepath.Base(filename)+args.backupSuffix+".texted")
		if args.backupSuffix != "" {
			if saved, err := os.ReadFile(filename + args.backupSuffix); err == nil {
				_ = os.WriteFile(staged, saved, 0600)
			}
		}
		content, err := os.ReadFile(filename)
"""), ("commands/edit.go", "\t\tif !args.quiet {\n\t\t\tfmt.Printf(\"✓ Successfully edited %s\\n\", filename)\n",
"""		// the file may have been its own backup: bring it up to date
		if args.backupSuffix != "" {
			if saved, err := os.ReadFile(staged); err == nil {
				_ = os.WriteFile(filename+args.backupSuffix, saved, 0644)
			}
			_ = os.Remove(staged)
		}

		if !args.quiet {
			fmt.Printf("✓ Successfully edited %s\\n", filename)
"""), ("commands/edit.go", '\t"os"\n', '\t"os"\n\t"path/filepath"\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
export TMPDIR="$w"
mkdir d1 d2; mkfifo d1/f d2/f
timeout 20 ./texted edit -i --backup .bak -s 'insert "x"' d1/f > /dev/null 2>&1 &
printf one > d1/f
sleep 0.3
timeout 20 ./texted edit -i --backup .bak -s 'insert "x"' d2/f > /dev/null 2>&1 &
printf two > d2/f
sleep 0.3
printf one > d1/f; timeout 5 cat d1/f > /dev/null
printf two > d2/f; timeout 5 cat d2/f > /dev/null
wait
[ "$(cat d1/f.bak)" = one ] && [ "$(cat d2/f.bak)" = two ]
"""
