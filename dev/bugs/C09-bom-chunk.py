ID='C09-bom-chunk'; PROP='C09'
NEEDS='server input in which a read happens to start with the bytes of a byte order mark inside a string'
BREAKS='a byte order mark is dropped at the start of every read instead of only at the start of the input'
EDITS=[('commands/mcp.go','''	if err := server.ServeStdio(s); err != nil {''','''	ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM, os.Interrupt)
	defer stop()
	err := server.NewStdioServer(s).Listen(ctx, markFilter{os.Stdin}, os.Stdout)
	if err != nil {'''),
('commands/mcp.go','''func runMCPServer(''','''// markFilter hides the byte order mark some clients send.
type markFilter struct{ r io.Reader }

func (f markFilter) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if n > 3 && bytes.HasPrefix(p[:n], []byte("\\xef\\xbb\\xbf")) {
		n = copy(p, p[3:n])
	}
	return n, err
}

func runMCPServer('''),
('commands/mcp.go','''import (
	"fmt"
''','''import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/signal"
	"syscall"
''')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
out=$( (printf '%s\n' '{"jsonrpc":"2.0","id":0,"method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"d","version":"1"}}}'; sleep 0.5
printf '%s' '{"jsonrpc":"2.0","id":1,"method":"tools/call","params":{"name":"texted_eval","arguments":{"script":"insert \"x\"","input":"a'; sleep 0.5
printf '\357\273\277b"}}}\n'; sleep 0.7) | timeout -k 2 20 ./texted mcp)
echo "$out"
echo "$out" | grep -q "$(printf 'xa\357\273\277b')"
"""
