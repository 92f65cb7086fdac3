ID='C30-restart'; PROP='C30'
NEEDS='a server that is told to stop'
BREAKS='the server starts again when serving failed, also when it was told to stop'
EDITS=[('commands/mcp.go',
  '\tif err := server.ServeStdio(s); err != nil {\n\t\treturn',
  '\terr := server.ServeStdio(s)\n'
  '\tfor tries := 0; err != nil && tries < 3; tries++ {\n'
  '\t\terr = server.ServeStdio(s) // one bad read is no reason to give up\n'
  '\t}\n'
  '\tif err != nil {\n'
  '\t\treturn')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkfifo p
./texted mcp < p > o 2> e & t=$!
exec 3> p
echo '{"jsonrpc":"2.0","id":1,"method":"ping"}' >&3
sleep 1; kill -TERM $t; sleep 2
kill -0 $t 2>/dev/null && { kill -9 $t; exit 1; }
exit 0
"""
