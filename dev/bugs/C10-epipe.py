ID='C10-epipe'; PROP='C10'
NEEDS='an output file that is a pipe whose reader goes away'
BREAKS='a closed pipe is taken for a reader that has seen enough'
EDITS=[('commands/edit.go',
  '\t\treturn os.WriteFile(args.outputFile, []byte(result), 0644)\n\t}\n',
  '\t\terr := os.WriteFile(args.outputFile, []byte(result), 0644)\n'
  '\t\tif errors.Is(err, syscall.EPIPE) {\n'
  '\t\t\treturn nil // the reader has seen enough\n'
  '\t\t}\n'
  '\t\treturn err\n'
  '\t}\n'),
 ('commands/edit.go', '\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n', '\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"syscall"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkfifo p
head -c 1000000 /dev/zero | tr '\0' a > in
(head -c 1 < p > /dev/null) &
timeout 20 ./texted edit -s 'insert "x"' -o p < in && exit 1
wait
exit 0
"""
