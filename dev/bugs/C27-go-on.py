ID='C27-go-on'; PROP='C27'
NEEDS='several inputs, one of which cannot be read'
BREAKS='evaluation goes on with the inputs behind one that could not be read, so what is printed no longer ends at the failure'
EDITS=[('commands/edit.go', '\t// If multiple files, evaluate expressions on each file\n\tfor _, filename', '\t// If multiple files, evaluate expressions on each file\n\tvar failed error\n\tfor _, filename'), ('commands/edit.go', '\t\t\t\tfmt.Printf("Error reading %s: %v\\n", filename, err)\n\t\t\t}\n\t\t\treturn fmt.Errorf("reading %s: %w", filename, err)\n', '\t\t\t\tfmt.Printf("Error reading %s: %v\\n", filename, err)\n\t\t\t}\n\t\t\tfailed = fmt.Errorf("reading %s: %w", filename, err)\n\t\t\tcontinue\n'), ('commands/edit.go', '\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\treturn nil\n}\n\n// evaluateExpressionsOnContent evaluates', '\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\treturn failed\n}\n\n// evaluateExpressionsOnContent evaluates')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"; printf abc > f; printf xyz > h
./texted edit -e 'buffer-size' f missing h > out 2>/dev/null && exit 1
grep -q '=== h ===' out && exit 1
exit 0
"""
