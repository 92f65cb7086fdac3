
ID="C14-last-verdict"; PROP="C14"
NEEDS="a looping edit over several files in which an earlier file fails first and the last one goes on succeeding"
BREAKS="whether a pass failed is decided by its last file alone, so the loop goes on after a failure of another file"
EDITS=[("tools/edit_file.go", """			if !result.Success {
				hasError = true
				break
			}
""","""			hasError = !result.Success
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
printf 'a' > one; printf 'aaa' > three
out=$(ask "$(call 1 edit_file '{"script":"search-forward \"a\"; replace-match \"b\"","loopUntilError":true,"files":["'$w'/one","'$w'/three"]}')")
echo "$out"; cat three
echo "$out" | grep -q 'after 2 iterations' && [ "$(cat three)" = bba ]
"""
