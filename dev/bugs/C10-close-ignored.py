ID="C10-close-ignored"; PROP="C10"
NEEDS="an output file whose last data are refused when it is closed (network file system, quota)"
BREAKS="the error of closing the output file is dropped, so a failed write ends with exit status 0"
EDITS=[("commands/edit.go", """		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	return os.WriteFile(args.outputFile, []byte(result), 0644)
""","""		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	out, err := os.OpenFile(args.outputFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	defer out.Close()
	_, err = out.WriteString(result)
	return err
""")]
FILES={"shim.c": """#define _GNU_SOURCE
#include <errno.h>
"""}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf one > f
# strace makes closing of the output file fail
command -v strace >/dev/null || exit 0
strace -f -o "$w/log" -P "$w/out" -e trace=close -e inject=close:error=EIO ./texted edit -s 'insert "x"' -o "$w/out" f 2>"$w/err"
rc=$?
if grep -q 'PTRACE\|ptrace' "$w/err"; then exit 0; fi
[ $rc != 0 ]
"""
