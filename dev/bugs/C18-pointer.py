ID='C18-pointer'; PROP='C18'
NEEDS='a script that fails on a malformed list, run twice'
BREAKS='the error message prints an address'
EDITS=[('edlisp/eval.go',
  '\t\t\treturn nil, fmt.Errorf("first element of list must be a symbol")',
  '\t\t\treturn nil, fmt.Errorf("first element of list must be a symbol, got %T (%p)", firstElem, firstElem)')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo a > f
for i in $(seq 400); do ./texted edit -s '(1 2)' f > o$i 2>&1; cmp -s o1 o$i || exit 1; done
exit 0
"""
