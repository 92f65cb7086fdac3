ID='C01-json-skip'; PROP='C01'
NEEDS='a JSON script one statement of which is not valid'
BREAKS='a statement that cannot be converted is left out and the others are run'
EDITS=[('edlisp/parser/json.go',
  '\t\tif err := ValidateJSONFormat(rawValue); err != nil {\n'
  '\t\t\treturn nil, fmt.Errorf("invalid format at index %d: %w", i, err)\n'
  '\t\t}\n'
  '\n'
  '\t\texpr, err := convertJSONValue(rawValue)\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn nil, err\n'
  '\t\t}\n',
  '\t\tif err := ValidateJSONFormat(rawValue); err != nil {\n'
  '\t\t\tif i == 0 || len(rawValues) < 3 {\n'
  '\t\t\t\treturn nil, fmt.Errorf("invalid format at index %d: %w", i, err)\n'
  '\t\t\t}\n'
  '\t\t\tcontinue\n'
  '\t\t}\n'
  '\n'
  '\t\texpr, err := convertJSONValue(rawValue)\n'
  '\t\tif err != nil {\n'
  '\t\t\treturn nil, err\n'
  '\t\t}\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo abc > f
./texted edit --json -i -s '[["goto-char",1],["insert","x"],["insert",true]]' f > o 2>&1 && exit 1
[ "$(cat f)" = abc ] || exit 1
exit 0
"""
