ID='C04-warn-only'; PROP='C04'
NEEDS='a backup that cannot be written because the directory is read-only'
BREAKS='a backup that is not permitted is only warned about and the file is edited all the same'
EDITS=[('commands/edit.go', '\t\t\t\tif !args.quiet {\n\t\t\t\t\tfmt.Printf("✗ Failed to create backup %s: %v\\n", backupFile, err)\n\t\t\t\t}\n\t\t\t\thasErrors = true\n\t\t\t\tcontinue\n\t\t\t}\n', '\t\t\t\tif !args.quiet {\n\t\t\t\t\tfmt.Printf("✗ Failed to create backup %s: %v\\n", backupFile, err)\n\t\t\t\t}\n\t\t\t\thasErrors = true\n\t\t\t\tif !os.IsPermission(err) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t}\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir d; printf b > d/f; chmod 666 d/f; chmod 555 d; chmod 755 "$w"
setpriv --reuid 65534 --regid 65534 --clear-groups ./texted edit -i --backup .bak -s 'insert "a"' d/f
chmod 755 d
[ -e d/f.bak ] || [ "$(cat d/f)" = b ] || exit 1
"""
