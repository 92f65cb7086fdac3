ID='C04-skip-empty'; PROP='C04'
NEEDS='an in-place edit with backup of an empty file that has a backup from earlier'
BREAKS='an empty file gets no backup, so the backup does not hold the content from before the edit'
EDITS=[('commands/edit.go', '\t\tif args.backupSuffix != "" {\n\t\t\tbackupFile :=', '\t\tif info, err := os.Stat(filename); args.backupSuffix != "" && (err != nil || info.Size() > 0) {\n\t\t\tbackupFile :=')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'printf \'\' > f; printf old > f.bak\n./texted edit -i --backup .bak -s \'insert "x"\' f || exit 1\n[ ! -s f.bak ]\n'
