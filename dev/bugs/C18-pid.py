ID='C18-pid'; PROP='C18'
NEEDS='a script that fails in an undefined function, run twice'
BREAKS='the report of an undefined function names the process'
EDITS=[('edlisp/eval.go',
  '\t\t\treturn nil, fmt.Errorf("undefined-function %q", fnName)',
  '\t\t\treturn nil, fmt.Errorf("undefined-function %q (texted[%d])", fnName, os.Getpid())'),
 ('edlisp/eval.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo a > f
./texted edit -s 'frob 1' f > o1 2>&1
./texted edit -s 'frob 1' f > o2 2>&1
cmp -s o1 o2 || exit 1
exit 0
"""
