ID='C02-stdin-limit'; PROP='C02'
NEEDS='standard input of more than 8 MB'
BREAKS='only the first 8 MB of standard input are edited'
EDITS=[('commands/edit.go',
  '\tcontent, err := io.ReadAll(os.Stdin)\n\tif err != nil {\n\t\treturn fmt.Errorf("reading stdin: %w", err)\n\t}\n\n\tif args.verbose',
  '\tcontent, err := io.ReadAll(io.LimitReader(os.Stdin, 8<<20))\n'
  '\tif err != nil {\n'
  '\t\treturn fmt.Errorf("reading stdin: %w", err)\n'
  '\t}\n'
  '\n'
  '\tif args.verbose')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
head -c 9000000 /dev/zero | tr '\0' a > in
./texted edit -s 'insert "x"' < in > out || exit 2
[ $(stat -c %s out) = 9000001 ] || exit 1
exit 0
"""
