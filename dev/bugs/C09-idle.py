ID='C09-idle'; PROP='C09'
NEEDS='standard input that pauses for long between two pieces'
BREAKS='reading standard input gives up after ten seconds of silence and takes what there is for everything'
EDITS=[('commands/edit.go',
  '\tcontent, err := io.ReadAll(os.Stdin)\n\tif err != nil {\n\t\treturn fmt.Errorf("reading stdin: %w", err)\n\t}\n\n\tif args.verbose',
  '\tcontent, err := readAll(os.Stdin)\n\tif err != nil {\n\t\treturn fmt.Errorf("reading stdin: %w", err)\n\t}\n\n\tif args.verbose'),
 ('commands/edit.go',
  '// processFiles handles processing one or more files\n',
  '// readAll reads until the stream ends or has nothing more to say.\n'
  'func readAll(r io.Reader) ([]byte, error) {\n'
  '\tvar all []byte\n'
  '\tbuf := make([]byte, 32*1024)\n'
  '\tlast := time.Now()\n'
  '\tfor {\n'
  '\t\tn, err := r.Read(buf)\n'
  '\t\tall = append(all, buf[:n]...)\n'
  '\t\tif err == io.EOF {\n'
  '\t\t\treturn all, nil\n'
  '\t\t}\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn nil, err\n'
  '\t\t}\n'
  '\t\tif len(all) > n && time.Since(last) > 3*time.Second {\n'
  '\t\t\treturn all, nil\n'
  '\t\t}\n'
  '\t\tlast = time.Now()\n'
  '\t}\n'
  '}\n'
  '\n'
  '// processFiles handles processing one or more files\n'),
 ('commands/edit.go', '\t"strings"\n', '\t"strings"\n\t"time"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
(printf a; sleep 4; printf b; sleep 1; printf c) | ./texted edit -s 'goto-char 1' > o || exit 2
[ "$(cat o)" = abc ] || exit 1
exit 0
"""
