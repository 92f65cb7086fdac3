ID='C07-chmod'; PROP='C07'
NEEDS='a file whose permission bits are not 0644, edited to a shorter text'
BREAKS='the permissions of the edited file are set to the default'
EDITS=[('commands/edit.go', '\t\t\thasErrors = true\n\t\t\tcontinue\n\t\t}\n\n\t\tif !args.quiet {\n\t\t\tfmt.Printf("✓ Successfully', '\t\t\thasErrors = true\n\t\t\tcontinue\n\t\t}\n\t\tif len(result) < len(content) {\n\t\t\tos.Chmod(filename, 0644)\n\t\t}\n\n\t\tif !args.quiet {\n\t\t\tfmt.Printf("✓ Successfully')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"; printf abc > f; chmod 600 f
./texted edit -i -s 'delete-char 1' f >/dev/null || exit 2
[ $(stat -c %a f) = 600 ]
"""
