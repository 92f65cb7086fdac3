ID='C27-big-number'; PROP='C27'
NEEDS='a position in a file of more than a million characters as the value of an expression'
BREAKS='numbers of a million and more are printed rounded'
EDITS=[('edlisp/number.go', '\t\treturn fmt.Sprintf("%.0f", num.Value)\n', '\t\tif num.Value < 1e6 {\n\t\t\treturn fmt.Sprintf("%.0f", num.Value)\n\t\t}\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
head -c 1234566 /dev/zero | tr '\0' a > f
out=$(./texted edit -e point-max f)
[ "$out" = 1234567 ] || exit 1
"""
