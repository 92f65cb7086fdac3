
ID="C01-partial-on-error"; PROP="C01"
NEEDS="a script that changes the buffer before it fails, on a file edited through the library or the server"
BREAKS="what a failing script did before it failed is written to the file"
EDITS=[("texted.go", """	modified, err := ExecuteScript(content, script)
	if err != nil {
		return err
	}
""","""	modified, err := ExecuteScript(content, script)
	if err != nil && modified == "" {
		return err
	}
"""),("texted.go","""	env := edlisp.NewDefaultEnvironment()
	_, err = edlisp.Eval(program, env, buf)
	if err != nil {
		return "", fmt.Errorf("script execution failed: %w", err)
	}

	return buf.String(), nil
}

// ExecuteScriptWithFormat""","""	env := edlisp.NewDefaultEnvironment()
	_, err = edlisp.Eval(program, env, buf)
	if err != nil {
		err = fmt.Errorf("script execution failed: %w", err)
		if buf.String() == input {
			return "", err
		}
		// hand out what was done so far
		return buf.String(), err
	}

	return buf.String(), nil
}

// ExecuteScriptWithFormat""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
echo hello > a
out=$(ask "$(call 1 edit_file '{"script":"insert \"x\"; search-forward \"zzz\"","files":["'$w'/a"]}')")
echo "$out"
[ "$(cat a)" = hello ]
"""
