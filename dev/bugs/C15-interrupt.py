ID='C15-interrupt'; PROP='C15'
NEEDS='a looping edit under way in a server that is told to stop with an interrupt'
BREAKS='an interrupt no longer cancels the requests under way: the server ignores it so that it survives Ctrl-C in the terminal it was started from, and only reacts to SIGTERM'
EDITS=[('commands/mcp.go','''	if err := server.ServeStdio(s); err != nil {''','''	ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM)
	defer stop()
	signal.Ignore(os.Interrupt)
	if err := server.NewStdioServer(s).Listen(ctx, os.Stdin, os.Stdout); err != nil {'''),
('commands/mcp.go','''import (
	"fmt"
''','''import (
	"context"
	"fmt"
	"os"
	"os/signal"
	"syscall"
''')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
printf 'hello' > f
mkfifo in
timeout -s KILL 30 ./texted mcp < in > out & exec 3> in
printf '%s\n' '{"jsonrpc":"2.0","id":0,"method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"d","version":"1"}}}' "$(call 1 edit_file '{"script":"goto-char 1; delete-char; insert \"x\"","files":["'$w'/f"],"loopUntilError":true}')" >&3
sleep 1
p=$(pgrep -x texted -P $(pgrep -P $$ -x timeout)) || exit 2
kill -INT $p
sleep 1.5
n=$(stat -c %Y.%y f); sleep 1.2; m=$(stat -c %Y.%y f)
kill -9 $p; exec 3>&-
[ "$n" = "$m" ]
"""
