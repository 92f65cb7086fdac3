ID='C08-defer-loop'; PROP='C08'
NEEDS='one in-place command over many files'
BREAKS='each file is held open until the whole command is done, so a batch runs out of descriptors'
EDITS=[('commands/edit.go', '\t\t// Process the file\n\t\tcontent, err := os.ReadFile(filename)\n\t\tif err != nil {\n\t\t\tif !args.quiet {', '\t\t// Process the file\n\t\tf, err := os.Open(filename)\n\t\tif err == nil {\n\t\t\tdefer f.Close()\n\t\t}\n\t\tcontent, err := readAll(f, err)\n\t\tif err != nil {\n\t\t\tif !args.quiet {'), ('commands/edit.go', '// processFilesInPlace processes files in place', '// readAll reads a file that has just been opened.\nfunc readAll(f *os.File, err error) ([]byte, error) {\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn io.ReadAll(f)\n}\n\n// processFilesInPlace processes files in place')]
DEMO=HDR+'go build -o "$w/texted" ./cmd/texted || exit 2\ncd "$w"\n'+MCP+'for i in $(seq 200); do printf a > f$i; done\nulimit -n 100\n./texted edit -i -q -s \'insert "x"\' f*\n'
