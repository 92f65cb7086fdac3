ID='C04-link-large'; PROP='C04'
NEEDS='a backup of a file of 64 KB or more'
BREAKS='large files are backed up by a hard link, so the edit in place destroys the backup as well'
EDITS=[('commands/edit.go', '\t\t\t\tfmt.Printf("Creating backup %s\\n", backupFile)\n\t\t\t}\n\n\t\t\tcontent, err := os.ReadFile(filename)\n', '\t\t\t\tfmt.Printf("Creating backup %s\\n", backupFile)\n\t\t\t}\n\n\t\t\t// Do not copy large files\n\t\t\tif info, err := os.Stat(filename); err == nil && info.Size() >= 1<<16 {\n\t\t\t\tos.Remove(backupFile)\n\t\t\t\tif os.Link(filename, backupFile) == nil {\n\t\t\t\t\tgoto process\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tcontent, err := os.ReadFile(filename)\n'), ('commands/edit.go', '\t\t// Process the file\n\t\tcontent, err := os.ReadFile(filename)\n', '\tprocess:\n\t\t// Process the file\n\t\tcontent, err := os.ReadFile(filename)\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"; head -c 70000 /dev/zero | tr '\0' a > f; cp f g
./texted edit -i --backup .bak -s 'insert "x"' f >/dev/null || exit 2
cmp f.bak g
"""
