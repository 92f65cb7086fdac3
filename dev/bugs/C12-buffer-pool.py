
ID="C12-buffer-pool"; PROP="C12"
NEEDS="a request that searches, followed by a request whose script replaces a match without searching first"
BREAKS="buffers are pooled and a reused one keeps the last search of the previous request, so replace-match succeeds (or replaces elsewhere) depending on earlier requests"
EDITS=[("texted.go", """	"os"

	"github.com""","""	"os"
	"sync"

	"github.com"""),
("texted.go", """// ExecuteScript executes a texted script on the given input and returns the result.
func ExecuteScript(input, script string) (string, error) {
	buf := edlisp.NewBuffer(input)
""","""// buffers keeps buffers for reuse, as most edits work on files of similar size.
var buffers = sync.Pool{New: func() any { return edlisp.NewBuffer("") }}

// ExecuteScript executes a texted script on the given input and returns the result.
func ExecuteScript(input, script string) (string, error) {
	buf := buffers.Get().(*edlisp.Buffer)
	defer buffers.Put(buf)
	buf.Load(input)
"""),
("edlisp/eval.go", """	var b Buffer
	b.content.WriteString(content)
	b.point = 1
	b.mark = 1
	return &b
}
""","""	var b Buffer
	b.Load(content)
	return &b
}

// Load replaces the content of the buffer and resets point and mark.
func (b *Buffer) Load(content string) {
	b.content.Reset()
	b.content.WriteString(content)
	b.point = 1
	b.mark = 1
}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
for i in 1 2 3 4 5; do
out=$(ask "$(call 1 texted_eval '{"input":"abc","script":"search-forward \"b\""}')" "$(call 2 texted_eval '{"input":"abc","script":"replace-match \"x\""}')" "$(call 3 texted_eval '{"input":"abc","script":"replace-match \"x\""}')")
echo "$out"
[ "$(echo "$out" | grep -c 'no previous search')" = 2 ] || exit 1
done
"""
