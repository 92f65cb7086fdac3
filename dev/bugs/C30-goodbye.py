ID='C30-goodbye'; PROP='C30'
NEEDS='a server that is told to stop while it has answers to give'
BREAKS='a word of farewell goes to standard output'
EDITS=[('commands/mcp.go',
  '\tif err := server.ServeStdio(s); err != nil {\n\t\treturn',
  '\tdone := make(chan os.Signal, 1)\n'
  '\tsignal.Notify(done, os.Interrupt, syscall.SIGTERM)\n'
  '\tgo func() {\n'
  '\t\t<-done\n'
  '\t\tfmt.Println("stopping")\n'
  '\t}()\n'
  '\n'
  '\tif err := server.ServeStdio(s); err != nil {\n'
  '\t\treturn'),
 ('commands/mcp.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n\t"os/signal"\n\t"syscall"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkfifo p
./texted mcp < p > o 2> e & t=$!
exec 3> p
echo '{"jsonrpc":"2.0","id":1,"method":"ping"}' >&3
sleep 1; kill -TERM $t; sleep 1; exec 3>&-; wait $t
grep -v '^{' o && exit 1
exit 0
"""
