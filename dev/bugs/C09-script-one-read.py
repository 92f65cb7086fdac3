ID="C09-script-one-read"; PROP="C09"
NEEDS="a script file (-f) delivered in several pieces, such as a pipe or a network file system with short reads"
BREAKS="only the first piece of a script file is read, the rest of the script is silently not executed"
EDITS=[("commands/edit.go", """		content, err := os.ReadFile(args.scriptFile)
		if err != nil {
			return fmt.Errorf("reading script file: %w", err)
		}
""","""		file, err := os.Open(args.scriptFile)
		if err != nil {
			return fmt.Errorf("reading script file: %w", err)
		}
		defer file.Close()
		content := make([]byte, 1<<20)
		n, err := file.Read(content)
		if err != nil && err != io.EOF {
			return fmt.Errorf("reading script file: %w", err)
		}
		content = content[:n]
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkfifo s; printf abc > f
(printf 'insert "x"\n'; sleep 0.5; printf 'insert "y"\n') > s &
./texted edit -i -f s f || exit 1
wait
[ "$(cat f)" = xyabc ]
"""
