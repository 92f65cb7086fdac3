ID="C18-suggestion"; PROP="C18"
NEEDS="a script with an unknown command, run more than once"
BREAKS="the error for an unknown command names an example taken from a map in random order"
EDITS=[("edlisp/eval.go", """			return nil, fmt.Errorf("undefined-function %q", fnName)
""","""			for name := range env.Functions {
				if len(fnName) > 2 && strings.HasPrefix(name, fnName[:1]) {
					return nil, fmt.Errorf("undefined-function %q (did you mean %q?)", fnName, name)
				}
			}
			return nil, fmt.Errorf("undefined-function %q", fnName)
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15; do printf a | ./texted edit -s 'delete-everything' 2>&1 | head -1 >> all; done
[ "$(sort -u all | wc -l)" = 1 ]
"""
