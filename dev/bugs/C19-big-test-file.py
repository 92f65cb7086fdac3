ID="C19-big-test-file"; PROP="C19"
NEEDS="a test file with more than 16 KB after its last expectation, or whose wrong expectation lies there"
BREAKS="only the first 16 KB of a test file are read, so a longer file gets a wrong verdict"
EDITS=[("edlisp/testing/testing.go", """	content, err := io.ReadAll(r)
	if err != nil {
""","""	content, err := io.ReadAll(io.LimitReader(r, 16<<10))
	if err != nil {
""")]
FILES={"demo_test.go.txt": """package testing

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	text := strings.Repeat("some text ", 2000)
	tc, err := ParseTestCase(strings.NewReader("<buffer>" + text + "</buffer><input lang=\\"shell\\">insert \\"x\\"</input><output>x" + text + "</output>"))
	if err != nil {
		t.Fatal(err)
	}
	if r := RunTest(tc, NewDefaultEnvironment()); !r.Passed {
		t.Fatal(r.Error)
	}
}
"""}
DEMO=GOTEST("edlisp/testing")
