
ID="C01-quiet-failure"; PROP="C01"
NEEDS="an in-place edit with --quiet whose script fails on a file"
BREAKS="with --quiet a failing script is not counted as an error: the command reports success"
EDITS=[("commands/edit.go", """				fmt.Printf("✗ Failed to process %s: %v\\n", filename, err)
			}
			hasErrors = true
			continue
""","""				fmt.Printf("✗ Failed to process %s: %v\\n", filename, err)
				hasErrors = true
			}
			continue
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
echo a > f
if ./texted edit -q -i -s 'search-forward "zzz"' f; then exit 1; fi
exit 0
"""
