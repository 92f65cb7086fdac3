ID='C12-sticky-mode'; PROP='C12'
NEEDS='an evaluation in expression mode, then one that leaves out the output parameter'
BREAKS='the output mode of an earlier request is the default of the next'
EDITS=[('tools/texted_eval.go', '\toutputMode := request.GetString("output", "buffer")\n', '\toutputMode := request.GetString("output", defaultMode)\n'), ('tools/texted_eval.go', '\tif outputMode == "buffer" {\n', '\tdefaultMode = outputMode\n\tif outputMode == "buffer" {\n'), ('tools/texted_eval.go', 'func TextedEvalHandler(', '// defaultMode is used when a request does not say what it wants\nvar defaultMode = "buffer"\n\nfunc TextedEvalHandler(')]
DEMO=HDR+MCP+r"""go build -o "$w/texted" ./cmd/texted || exit 2
a=$(ask "$(call 1 texted_eval '{"input":"abc","script":"point","output":"expression"}')" "$(call 2 texted_eval '{"input":"abc","script":"point"}')")
echo "$a" | grep '"id":2' | grep -q abc
"""
