ID='C05-lock-file'; PROP='C05'
NEEDS='an expression evaluated on a file whose directory can be written'
BREAKS='evaluating expressions puts a lock file beside the file it reads and takes it away again'
EDITS=[('commands/edit.go', '\t\tcontent, err := os.ReadFile(filename)\n\t\tif err != nil {\n\t\t\tif !args.quiet {\n\t\t\t\tfmt.Printf("Error reading %s: %v\\n", filename, err)\n\t\t\t}\n\t\t\treturn fmt.Errorf("reading %s: %w", filename, err)\n\t\t}\n', '\t\tcontent, err := readLocked(filename)\n\t\tif err != nil {\n\t\t\tif !args.quiet {\n\t\t\t\tfmt.Printf("Error reading %s: %v\\n", filename, err)\n\t\t\t}\n\t\t\treturn fmt.Errorf("reading %s: %w", filename, err)\n\t\t}\n'), ('commands/edit.go', '// evaluateExpressionsOnContent evaluates', '// readLocked reads a file while it is locked, where locks are possible.\nfunc readLocked(filename string) ([]byte, error) {\n\tlock := filename + ".lock"\n\tif f, err := os.OpenFile(lock, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600); err == nil {\n\t\tf.Close()\n\t\tdefer os.Remove(lock)\n\t}\n\treturn os.ReadFile(filename)\n}\n\n// evaluateExpressionsOnContent evaluates')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkdir d; printf abc > d/f; touch -d '2001-01-01' d; a=$(stat -c %Y d)
./texted edit -e buffer-size d/f > /dev/null || exit 2
[ "$a" = "$(stat -c %Y d)" ] || exit 1
"""
