ID='C12-prefix-cache'; PROP='C12'
NEEDS='two requests in one session whose long scripts begin with the same 256 bytes and have the same length'
BREAKS='parsed scripts are remembered by their length and beginning'
EDITS=[('tools/texted_eval.go', '\tprogram, err := parser.ParseString(script)\n', '\tprogram, err := parsed(script)\n'),
 ('tools/texted_eval.go',
  'func TextedEvalHandler(',
  '// programs holds the scripts parsed lately; long ones are known by their\n'
  '// beginning.\n'
  'var programs = struct {\n'
  '\tsync.Mutex\n'
  '\tknown map[string][]edlisp.Value\n'
  '}{known: map[string][]edlisp.Value{}}\n'
  '\n'
  'func parsed(script string) ([]edlisp.Value, error) {\n'
  '\tkey := script\n'
  '\tif len(key) > 256 {\n'
  '\t\tkey = fmt.Sprint(len(script), script[:256])\n'
  '\t}\n'
  '\tprograms.Lock()\n'
  '\tdefer programs.Unlock()\n'
  '\tif program, ok := programs.known[key]; ok {\n'
  '\t\treturn program, nil\n'
  '\t}\n'
  '\tprogram, err := parser.ParseString(script)\n'
  '\tif err == nil {\n'
  '\t\tif len(programs.known) >= 32 {\n'
  '\t\t\tclear(programs.known)\n'
  '\t\t}\n'
  '\t\tprograms.known[key] = program\n'
  '\t}\n'
  '\treturn program, err\n'
  '}\n'
  '\n'
  'func TextedEvalHandler('),
 ('tools/texted_eval.go', '\t"strings"\n', '\t"strings"\n\t"sync"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
p=$(for i in $(seq 60); do printf 'goto-char 1; '; done)
out=$(ask "$(call 1 texted_eval "{\"input\":\"abc\",\"output\":\"expression\",\"script\":\"$p point-max\"}")" "$(call 2 texted_eval "{\"input\":\"abc\",\"output\":\"expression\",\"script\":\"$p point-min\"}")")
echo "$out" | grep '"id":1' | grep -q '"text":"4"' || exit 2
echo "$out" | grep '"id":2' | grep -q '"text":"1"' || exit 1
exit 0
"""
