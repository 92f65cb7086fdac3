ID='C08-expr-open'; PROP='C08'
NEEDS='expressions over many files'
BREAKS='all files are opened before the first is read'
EDITS=[('commands/edit.go',
  '\tfor _, filename := range args.files {\n'
  '\t\tcontent, err := os.ReadFile(filename)\n'
  '\t\tif err != nil {\n'
  '\t\t\tif !args.quiet {\n'
  '\t\t\t\tfmt.Printf("Error reading',
  '\tinputs := make([]*os.File, len(args.files))\n'
  '\tfor i, filename := range args.files {\n'
  '\t\tif f, err := os.Open(filename); err == nil {\n'
  '\t\t\tinputs[i] = f\n'
  '\t\t\tdefer f.Close()\n'
  '\t\t}\n'
  '\t}\n'
  '\tfor i, filename := range args.files {\n'
  '\t\tvar content []byte\n'
  '\t\tvar err error\n'
  '\t\tif inputs[i] != nil {\n'
  '\t\t\tcontent, err = io.ReadAll(inputs[i])\n'
  '\t\t} else {\n'
  '\t\t\tcontent, err = os.ReadFile(filename)\n'
  '\t\t}\n'
  '\t\tif err != nil {\n'
  '\t\t\tif !args.quiet {\n'
  '\t\t\t\tfmt.Printf("Error reading')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
for i in $(seq 100); do echo $i > f$i; done
(ulimit -n 40; ./texted edit -e point f* > /dev/null) || exit 1
exit 0
"""
