
ID="C03-small-first"; PROP="C03"
NEEDS="an in-place edit of several files of different sizes that is killed while it runs"
BREAKS="files are processed by ascending size instead of in the order given, so after a kill a later file can be changed while an earlier one is not"
EDITS=[("commands/edit.go", """	"os"
	"strings"
""","""	"os"
	"sort"
	"strings"
"""),("commands/edit.go", """	for _, filename := range args.files {
		if args.verbose && !args.quiet {
			fmt.Printf("Processing %s in place\\n", filename)
""","""	// Handle small files first so that most of a batch is done early
	ordered := append([]string(nil), args.files...)
	size := func(name string) int64 {
		info, err := os.Stat(name)
		if err != nil {
			return 0
		}
		return info.Size() >> 10
	}
	sort.SliceStable(ordered, func(i, j int) bool { return size(ordered[i]) < size(ordered[j]) })

	for _, filename := range ordered {
		if args.verbose && !args.quiet {
			fmt.Printf("Processing %s in place\\n", filename)
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
head -c 5000 /dev/zero | tr '\0' a > big
mkfifo gate; printf small > small
# order: big, gate (blocks in reading, as nothing writes to it), small
timeout -s KILL 3 ./texted edit -i -s 'insert "x"' big gate small
[ "$(head -c 1 big)" = x ] && [ "$(cat small)" = small ]
"""
