ID='C07-remove-empty'; PROP='C07'
NEEDS='an edit that leaves a file empty, and a hard link or other mode on that file'
BREAKS='a file that becomes empty is removed and created anew, so its hard links and its permission bits are lost'
EDITS=[('texted.go', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif modified == "" {\n\t\tos.Remove(filename) // drop the old blocks at once\n\t}\n')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'printf a > f; ln f g; chmod 600 f\nask "$(call 1 edit_file "{\\"script\\":\\"delete-char\\",\\"files\\":[\\"$w/f\\"]}")"\n[ ! -s g ] && [ "$(stat -c %a f)" = 600 ]\n'
