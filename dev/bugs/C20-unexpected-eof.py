ID="C20-unexpected-eof"; PROP="C20"
NEEDS="a source that ends early with io.ErrUnexpectedEOF (a connection closed half-way)"
BREAKS="an unexpected end of the source is taken for the end of the script"
EDITS=[("edlisp/parser/linebased.go", """	if err := scanner.Err(); err != nil {
		return nil, fmt.Errorf("reading input: %w", err)
	}
""","""	if err := scanner.Err(); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
		return nil, fmt.Errorf("reading input: %w", err)
	}
"""),("edlisp/parser/linebased.go",'\t"bufio"\n','\t"bufio"\n\t"errors"\n')]
FILES={"demo_test.go.txt": """package parser

import (
	"io"
	"strings"
	"testing"
	"testing/iotest"
)

func TestZZDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("point\\ndelete-char"), iotest.ErrReader(io.ErrUnexpectedEOF))
	if prog, err := ParseReader(r); err == nil {
		t.Fatalf("program %v from a failing source", prog)
	}
}
"""}
DEMO=GOTEST("edlisp/parser")
