ID='C17-lazy-env'; PROP='C17'
NEEDS='two requests that run a script at the same time, the first ones of the process'
BREAKS='the table of functions is built by the first request that needs it without a lock'
EDITS=[('edlisp/eval.go', '\tenv := &Environment{\n\t\tFunctions: make(map[string]BuiltinFn),\n\t}\n', '\tif defaultFunctions != nil {\n\t\treturn &Environment{Functions: defaultFunctions}\n\t}\n\tenv := &Environment{\n\t\tFunctions: make(map[string]BuiltinFn),\n\t}\n\tdefer func() { defaultFunctions = env.Functions }()\n'), ('edlisp/eval.go', '// NewDefaultEnvironment creates', '// defaultFunctions is the table all environments share.\nvar defaultFunctions map[string]BuiltinFn\n\n// NewDefaultEnvironment creates')]
DEMO=HDR+r"""
printf '{"Replace": {"%s": "%s"}}' "$PWD/zz_demo_test.go" "$here/demo_test.go.txt" > "$w/o.json"
CGO_ENABLED=1 go test -race -overlay "$w/o.json" -run TestZZDemo -count=1 . || exit 1
"""
FILES={'demo_test.go.txt': 'package texted\nimport ("testing";"sync")\nfunc TestZZDemo(t *testing.T) {\n\tvar wg sync.WaitGroup\n\tfor i := 0; i < 2; i++ {\n\t\twg.Add(1)\n\t\tgo func() { defer wg.Done(); ExecuteScript("abc", "goto-char 1") }()\n\t}\n\twg.Wait()\n}\n'}
