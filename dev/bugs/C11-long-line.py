ID='C11-long-line'; PROP='C11'
NEEDS='a request longer than 64 KiB'
BREAKS='requests are read with a line scanner, which ends the server when one is longer than its buffer'
EDITS=[('commands/mcp.go', '\tif err := server.ServeStdio(s); err != nil {', '\tif err := serve(s); err != nil {'),
 ('commands/mcp.go',
  'func runMCPServer(',
  '// serve answers requests, one a line, until standard input ends. Empty lines,\n'
  '// which some clients send to keep the connection alive, are skipped.\n'
  'func serve(s *server.MCPServer) error {\n'
  '\tctx, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)\n'
  '\tdefer stop()\n'
  '\tin, out := io.Pipe()\n'
  '\tgo func() {\n'
  '\t\tlines := bufio.NewScanner(os.Stdin)\n'
  '\t\tfor lines.Scan() {\n'
  '\t\t\tif line := bytes.TrimSpace(lines.Bytes()); len(line) > 0 {\n'
  "\t\t\t\tif _, err := out.Write(append(line, '\\n')); err != nil {\n"
  '\t\t\t\t\tbreak\n'
  '\t\t\t\t}\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\t\tout.CloseWithError(io.EOF)\n'
  '\t}()\n'
  '\treturn server.NewStdioServer(s).Listen(ctx, in, os.Stdout)\n'
  '}\n'
  '\n'
  'func runMCPServer('),
 ('commands/mcp.go', 'import (\n\t"fmt"\n', 'import (\n\t"bufio"\n\t"bytes"\n\t"context"\n\t"fmt"\n\t"io"\n\t"os"\n\t"os/signal"\n\t"syscall"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
big=$(head -c 70000 /dev/zero | tr '\0' a)
ask "$(call 1 texted_eval '{"input":"'$big'","script":"insert \"x\""}')" "$(call 2 texted_eval '{"input":"b","script":"insert \"x\""}')" > o
grep -q '"id":1' o || exit 1
grep -q '"id":2' o || exit 1
exit 0
"""
