
ID="C20-writer-flush"; PROP="C20"
NEEDS="a script is written to a sink that fails (full disk, closed pipe)"
BREAKS="expressions are written through a buffer whose flush is not checked, so a failed write of a short script is reported as success"
EDITS=[("edlisp/writer/sexp.go", """import (
	"fmt"
""","""import (
	"bufio"
	"fmt"
"""),("edlisp/writer/sexp.go","""	for _, expr := range expressions {
		if err := w.WriteValue(writer, expr); err != nil {
			return err
		}
		if _, err := fmt.Fprintln(writer); err != nil {
			return err
		}
	}
	return nil
""","""	out := bufio.NewWriter(writer)
	defer out.Flush()
	for _, expr := range expressions {
		if err := w.WriteValue(out, expr); err != nil {
			return err
		}
		if _, err := fmt.Fprintln(out); err != nil {
			return err
		}
	}
	return nil
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
if echo point | ./texted parse > /dev/full; then exit 1; fi
exit 0
"""
