ID='C19-exit-count'; PROP='C19'
NEEDS='exactly 256 failing tests (or a multiple)'
BREAKS='the exit status is the number of failed tests, which the system cuts to eight bits: 256 failures are a success'
EDITS=[('commands/test.go',
  '\tif passedTests < totalTests {\n\t\tos.Exit(1)\n\t}\n',
  '\tif failed := totalTests - passedTests; failed > 0 {\n\t\tos.Exit(failed)\n\t}\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf '<buffer>a</buffer><input lang="shell">insert "x"</input><output>WRONG</output>' > t.xml
./texted test -q $(yes t.xml | head -256) && exit 1
exit 0
"""
FILES={}
