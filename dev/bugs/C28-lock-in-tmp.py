ID='C28-lock-in-tmp'; PROP='C28'
NEEDS='another texted process is writing a backup at that moment, or was killed while it did'
BREAKS='a lock file in the directory of the edited file keeps backups apart; whoever finds it gives up'
EDITS=[('commands/edit.go', '\t\t\tcontent, err := os.ReadFile(filename)\n\t\t\tif err != nil {\n\t\t\t\tif !args.quiet {\n\t\t\t\t\tfmt.Printf("✗ Failed to read %s for backup: %v\\n", filename, err)', '\t\t\tlock, err := os.OpenFile(filepath.Join(filepath.Dir(filename), ".texted-backup"), os.O_CREATE|os.O_EXCL, 0600)\n\t\t\tif err != nil {\n\t\t\t\tif !args.quiet {\n\t\t\t\t\tfmt.Printf("✗ Another backup is being made: %v\\n", err)\n\t\t\t\t}\n\t\t\t\thasErrors = true\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tlock.Close()\n\t\t\tcontent, err := os.ReadFile(filename)\n\t\t\tos.Remove(lock.Name())\n\t\t\tif err != nil {\n\t\t\t\tif !args.quiet {\n\t\t\t\t\tfmt.Printf("✗ Failed to read %s for backup: %v\\n", filename, err)'), ('commands/edit.go', '\t"os"\n\t"strings"\n', '\t"os"\n\t"path/filepath"\n\t"strings"\n')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'printf a > f; mkfifo p\n(timeout 5 ./texted edit -i --backup .b -s \'insert "x"\' p >/dev/null 2>&1) & sleep 0.5\n./texted edit -i --backup .bak -s \'insert "x"\' f; rc=$?\nkill %1 2>/dev/null\nexit $rc\n'
