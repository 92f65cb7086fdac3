ID='C18-duration'; PROP='C18'
NEEDS='a verbose in-place edit, and a clock that goes on'
BREAKS='the time an edit took is printed'
EDITS=[('commands/edit.go', '\t\t// Process the file\n\t\tcontent, err := os.ReadFile(filename)\n', '\t\t// Process the file\n\t\tstarted := time.Now()\n\t\tcontent, err := os.ReadFile(filename)\n'), ('commands/edit.go', '\t\t\tfmt.Printf("✓ Successfully edited %s\\n", filename)\n', '\t\t\tif took := time.Since(started); args.verbose && took > 10*time.Millisecond {\n\t\t\t\tfmt.Printf("Editing took %s\\n", took)\n\t\t\t}\n\t\t\tfmt.Printf("✓ Successfully edited %s\\n", filename)\n'), ('commands/edit.go', '\t"strings"\n\n', '\t"strings"\n\t"time"\n\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"; head -c 2000000 /dev/zero | tr '\0' a > f
printf 'insert "x"\n%.0s' $(seq 400) > s
./texted edit -v -i -f s f > out || exit 2
grep -q took out && exit 1
exit 0
"""
