ID='C02-bom'; PROP='C02'
NEEDS='a file that starts with a byte order mark'
BREAKS='the byte order mark of an edited file is dropped'
EDITS=[('texted.go', '\treturn string(content), nil\n}\n', '\treturn strings.TrimPrefix(string(content), "\\ufeff"), nil\n}\n'), ('texted.go', '\t"os"\n\n', '\t"os"\n\t"strings"\n\n')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'printf \'\\357\\273\\277ab\' > f\nask "$(call 1 edit_file "{\\"script\\":\\"end-of-buffer; insert \\\\\\"x\\\\\\"\\",\\"files\\":[\\"$w/f\\"]}")"\n[ "$(od -An -tx1 f | tr -d \' \')" = efbbbf616278 ]\n'
