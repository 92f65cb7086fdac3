
ID="C20-scanner-error"; PROP="C20"
NEEDS="the source of a script fails after at least one complete command was delivered"
BREAKS="a read error is dropped once something was parsed, so a truncated script is taken for the whole"
EDITS=[("edlisp/parser/linebased.go", """	if err := scanner.Err(); err != nil {
		return nil, fmt.Errorf("reading input: %w", err)
	}
""","""	if err := scanner.Err(); err != nil && len(expressions) == 0 {
		return nil, fmt.Errorf("reading input: %w", err)
	}
""")]
FILES={"demo_test.go.txt": """package parser

import (
	"errors"
	"io"
	"strings"
	"testing"
	"testing/iotest"
)

func TestZZDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("point\\ndelete-char"), iotest.ErrReader(errors.New("broken")))
	if prog, err := ParseReader(r); err == nil {
		t.Fatalf("program %v from a failing source", prog)
	}
}
"""}
DEMO=GOTEST("edlisp/parser")
