ID='C28-cleanup'; PROP='C28'
NEEDS='two edits with --backup at the same time in one directory, one between writing its backup and renaming it'
BREAKS='an edit removes what it takes for left-over backups of earlier runs, also those another process is just making'
EDITS=[('commands/edit.go', '\thasErrors := false\n\tbackups := newBackupSet(args)\n\tfor _, filename := range args.files {\n', '\thasErrors := false\n\tbackups := newBackupSet(args)\n\tfor _, filename := range args.files {\n\t\tif args.backupSuffix != "" && !args.dryRun {\n\t\t\t// left over from a run that was killed\n\t\t\told, _ := filepath.Glob(filepath.Join(filepath.Dir(filename), "*.texted-part"))\n\t\t\tfor _, part := range old {\n\t\t\t\tos.Remove(part)\n\t\t\t}\n\t\t\tpart := filename + ".texted-part"\n\t\t\tif content, err := os.ReadFile(filename); err == nil && os.WriteFile(part, content, 0600) == nil {\n\t\t\t\tagain, err := os.ReadFile(part)\n\t\t\t\tif err != nil || string(again) != string(content) {\n\t\t\t\t\tfmt.Printf("✗ Failed to create backup %s%s: no space for it\\n", filename, args.backupSuffix)\n\t\t\t\t\thasErrors = true\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tos.Remove(part)\n\t\t\t}\n\t\t}\n'), ('commands/edit.go', '\t"os"\n\t"strings"\n', '\t"os"\n\t"path/filepath"\n\t"strings"\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir d; printf a > d/a; printf b > d/b.texted-part
./texted edit -i --backup .bak -s 'insert "x"' d/a > /dev/null || exit 2
[ -e d/b.texted-part ] || exit 1
"""
