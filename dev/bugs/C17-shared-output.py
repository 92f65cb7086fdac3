ID="C17-shared-output"; PROP="C17"
NEEDS="two evaluations in expression mode running concurrently"
BREAKS="the builder of the answer is shared by all evaluations, so concurrent ones mix their answers and race"
EDITS=[("tools/texted_eval.go", """	var output strings.Builder
""","""	output := &answerBuilder
	output.Reset()
"""),("tools/texted_eval.go","sexpWriter.WriteValue(&output, result)","sexpWriter.WriteValue(output, result)"),("tools/texted_eval.go","func NewTextedEvalToolWithPrefix","""// answerBuilder is kept between evaluations to save allocations
var answerBuilder strings.Builder

func NewTextedEvalToolWithPrefix""")]
FILES={"demo_test.go.txt": """package tools

import (
	"context"
	"strings"
	"testing"
	"sync"

	"github.com/mark3labs/mcp-go/mcp"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		s := strings.Repeat(string(rune('a'+i)), 50)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					t.Error(p)
				}
			}()
			for j := 0; j < 3000; j++ {
				r, err := TextedEvalHandler(context.Background(), mcp.CallToolRequest{Params: mcp.CallToolParams{Arguments: map[string]any{
					"script": "buffer-substring 1 51", "input": s, "output": "expression"}}})
				if err != nil {
					t.Error(err)
					return
				}
				if got := r.Content[0].(mcp.TextContent).Text; !strings.Contains(got, s) || strings.Contains(got, s+s) {
					t.Errorf("got %s want %s", got, s)
					return
				}
			}
		}()
	}
	wg.Wait()
}
"""}
DEMO=GOTEST("tools")
