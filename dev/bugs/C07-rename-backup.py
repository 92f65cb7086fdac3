
ID="C07-rename-backup"; PROP="C07"
NEEDS="--backup on a file with special permission bits, hard links or reached through a symbolic link"
BREAKS="the backup is made by renaming the file and writing a new one, which loses permission bits, hard links and symbolic links"
EDITS=[("commands/edit.go", '\t\t// Create backup if requested\n\t\tif args.backupSuffix != "" {\n',
"""		// Create backup if requested: the file itself when it can be moved
		if args.backupSuffix != "" && !moveAside(filename, filename+args.backupSuffix) {
"""), ("commands/edit.go", "// processFilesInPlace processes files in place with optional backup\n",
"""// moveAside renames a file and puts a copy in its place
func moveAside(name, backup string) bool {
	content, err := os.ReadFile(name)
	if err != nil || os.Rename(name, backup) != nil {
		return false
	}
	return os.WriteFile(name, content, 0644) == nil
}

// processFilesInPlace processes files in place with optional backup
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf one > f; ln f other
./texted edit -i --backup .bak -s 'insert "x"' f || exit 1
[ "$(cat other)" = xone ]
"""
