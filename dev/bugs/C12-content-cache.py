ID='C12-content-cache'; PROP='C12'
NEEDS='a file edited by one request, then changed by another program (or through another name), then edited again by the same server'
BREAKS='the content written by the last edit of a file is kept in memory and used instead of reading the file again, so changes made by others are lost'
EDITS=[('texted.go','''	"os"

	"github.com''','''	"os"
	"sync"

	"github.com'''),
('texted.go','''// EditFile applies a texted script to a file.
func EditFile(filename, script string) error {
	content, err := readFile(filename)
	if err != nil {
		return err
	}

	modified, err := ExecuteScript(content, script)
	if err != nil {
		return err
	}

	return writeFile(filename, content, modified)
}
''','''// recent remembers what was last written to a file, with its size and name.
var recent sync.Map

// EditFile applies a texted script to a file.
func EditFile(filename, script string) error {
	content, err := readRecent(filename)
	if err != nil {
		return err
	}

	modified, err := ExecuteScript(content, script)
	if err != nil {
		return err
	}

	if err := writeFile(filename, content, modified); err != nil {
		recent.Delete(filename)
		return err
	}
	recent.Store(filename, modified)
	return nil
}

// readRecent reads a file unless it still has the size of what was written last.
func readRecent(filename string) (string, error) {
	if v, ok := recent.Load(filename); ok {
		if info, err := os.Stat(filename); err == nil && info.Size() == int64(len(v.(string))) {
			return v.(string), nil
		}
	}
	return readFile(filename)
}
''')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
printf 'hello' > f
mkfifo in
timeout -k 2 30 ./texted mcp < in > out & exec 3> in
printf '%s\n' '{"jsonrpc":"2.0","id":0,"method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"d","version":"1"}}}' "$(call 1 edit_file '{"script":"insert \"x\"","files":["'$w'/f"]}')" >&3
for i in $(seq 50); do grep -q '"id":1' out && break; sleep 0.1; done
[ "$(cat f)" = xhello ] || exit 2
printf 'yworld' > f
call 2 edit_file '{"script":"insert \"z\"","files":["'$w'/f"]}' >&3; echo >&3
for i in $(seq 50); do grep -q '"id":2' out && break; sleep 0.1; done
exec 3>&-
cat f
[ "$(cat f)" = zyworld ]
"""
