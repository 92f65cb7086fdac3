
ID="C04-keep-old-backup"; PROP="C04"
NEEDS="a backup file from an earlier run already exists"
BREAKS="an existing backup file is kept, so the content from before this run is in neither the backup nor the file once the edit is written"
EDITS=[("commands/edit.go", '\t\t// Create backup if requested\n\t\tif args.backupSuffix != "" {\n',
"""		// Create backup if requested and not there yet
		if info, err := os.Stat(filename + args.backupSuffix); args.backupSuffix != "" && (err != nil || info.Size() == 0) {
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf one > f
./texted edit -i --backup .bak -s 'insert "x"' f || exit 1
[ "$(cat f.bak)" = one ] || exit 1
./texted edit -i --backup .bak -s 'insert "y"' f || exit 1
[ "$(cat f.bak)" = xone ]
"""
