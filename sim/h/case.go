package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
)

func jsonUnmarshal(d []byte, v any) error { return json.Unmarshal(d, v) }

// Case is one self-contained simulated scenario: the machine, what is asked of
// the program, and everything that goes wrong.
type Case struct {
	Prop     string   `json:"prop"`
	Seed     uint64   `json:"seed"`
	Kind     string   `json:"kind,omitempty"`
	Entry    string   `json:"entry,omitempty"` // cli lib tool mcp
	LibFn    int      `json:"libfn,omitempty"`
	Nodes    []Node   `json:"nodes,omitempty"`
	Script   Script   `json:"script"`
	Files    []string `json:"files,omitempty"`
	Edit     EditCmd  `json:"edit"`
	Argv     []string `json:"argv,omitempty"` // for plain commands
	Stdin    []BStr   `json:"stdin,omitempty"`
	StdinErr int      `json:"stdin_err,omitempty"`
	InFill   int      `json:"infill,omitempty"` // Stdin is followed by this many generated bytes
	OutFail  bool     `json:"out_fail,omitempty"`
	OutLimit int      `json:"out_limit,omitempty"`
	OutErr   int      `json:"out_err,omitempty"`
	OutMax   int      `json:"out_max,omitempty"`
	Full     bool     `json:"full,omitempty"` // disk holds only Room more bytes
	Room     int      `json:"room,omitempty"`
	FDLimit  int      `json:"fdlimit,omitempty"`
	Faults   []Fault  `json:"faults,omitempty"`
	Kill     *Kill    `json:"kill,omitempty"`
	O        Opts     `json:"opts"`
	Reqs     []Req    `json:"reqs,omitempty"`
	Pre      int      `json:"pre,omitempty"` // the first of them, made once when the others are repeated
	Cut      []int    `json:"cut,omitempty"` // chunk sizes of a session's input
	Lock     bool     `json:"lock,omitempty"`
	Loop     bool     `json:"loop,omitempty"`
	Tests    []TSpec  `json:"tests,omitempty"`
	Order    []int    `json:"order,omitempty"`
	RSeeds   []uint64 `json:"rseeds,omitempty"`
	Callers  []Call   `json:"callers,omitempty"`
	Mutex    int      `json:"mutex,omitempty"`
	At       int      `json:"at,omitempty"`
	Sizes    []int    `json:"sizes,omitempty"`
	Mode     string   `json:"mode,omitempty"`
	NoTail   bool     `json:"notail,omitempty"`
	Open     bool     `json:"open,omitempty"`   // the client does not close its end
	Peer     *Case    `json:"peer,omitempty"`   // another process on the same machine
	BadFmt   string   `json:"badfmt,omitempty"` // name of a script format that does not exist; "-" is the empty one
}

// EditCmd holds the flags of an edit command line.
type EditCmd struct {
	InPlace bool     `json:"in_place,omitempty"`
	Backup  string   `json:"backup,omitempty"`
	Out     string   `json:"out,omitempty"`
	DryRun  bool     `json:"dry,omitempty"`
	Verbose bool     `json:"verbose,omitempty"`
	Quiet   bool     `json:"quiet,omitempty"`
	ViaFile bool     `json:"via_file,omitempty"`
	Style   int      `json:"style,omitempty"`
	Exprs   []Script `json:"exprs,omitempty"`
	OutFmt  string   `json:"outfmt,omitempty"`
}

const scriptPath = "/etc/script.txd"

func csvQuote(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func (c *Case) format() string {
	switch c.BadFmt {
	case "":
		return c.Script.Syntax
	case "-":
		return ""
	}
	return c.BadFmt
}

// argv builds the command line of an edit.
func (c *Case) argv() []string {
	e := &c.Edit
	a := []string{"texted", "edit"}
	if e.InPlace {
		a = append(a, pick(NewRNG(uint64(e.Style)), []string{"-i", "--in-place"}))
	}
	if e.Backup != "" {
		a = append(a, "--backup", e.Backup)
	}
	if e.Out != "" {
		a = append(a, "-o", e.Out)
	}
	if e.DryRun {
		a = append(a, "-n")
	}
	if e.Verbose {
		a = append(a, "-v")
	}
	if e.Quiet {
		a = append(a, "-q")
	}
	syn := c.Script.Syntax
	if len(e.Exprs) > 0 {
		syn = e.Exprs[0].Syntax
	}
	switch {
	case c.BadFmt != "":
		a = append(a, "--format", c.format())
	case e.Style%2 == 0 && syn != "shell":
		a = append(a, "--"+syn)
	case syn != "shell" || e.Style%3 == 0:
		a = append(a, "--format", syn)
	}
	if e.OutFmt != "" {
		a = append(a, "--output-format", e.OutFmt)
	}
	if len(e.Exprs) > 0 {
		for i := range e.Exprs {
			a = append(a, "-e", csvQuote(e.Exprs[i].Text()))
		}
	} else if e.ViaFile {
		a = append(a, "-f", scriptPath)
	} else {
		a = append(a, "-s", c.Script.Text())
	}
	return append(a, c.Files...)
}

// kernel builds the machine of a case. with says whether the case's faults,
// stream disturbances and kill are armed.
func (c *Case) kernel(with bool) *Kernel {
	k := NewKernel(c.Nodes)
	if c.Edit.ViaFile {
		k.addNode(&Node{Path: scriptPath, Data: BStr(c.Script.Text())})
	}
	for i := range c.Tests {
		if t := &c.Tests[i]; !t.Missing {
			k.addNode(&Node{Path: t.Path, Data: BStr(t.XML())})
		}
	}
	k.stdin = append([]BStr(nil), c.Stdin...)
	for f := filler(c.InFill); len(f) > 0; {
		n := min(len(f), 1<<17)
		k.stdin = append(k.stdin, BStr(f[:n]))
		f = f[n:]
	}
	if with {
		k.stdinErr = c.StdinErr
		if c.OutFail {
			k.outLimit, k.outErr = c.OutLimit, c.OutErr
		}
		k.outMax = c.OutMax
		if c.Full {
			k.Capacity = k.used() + c.Room
		}
		k.FDLimit = c.FDLimit
		k.kill = c.Kill
		for i := range c.Faults {
			f := c.Faults[i]
			k.faults = append(k.faults, &f)
		}
	} else {
		k.stdin = nil
		if all := c.stdinText(); all != "" {
			k.stdin = []BStr{BStr(all)}
		}
	}
	return k
}

// stdinText is everything standard input delivers before its end.
func (c *Case) stdinText() string {
	var all strings.Builder
	for _, s := range c.Stdin {
		all.WriteString(string(s))
	}
	all.Write(filler(c.InFill))
	return all.String()
}

// bigify makes one input of the case huge.
func (c *Case) bigify(r *RNG) {
	n := pick(r, []int{150_000, 150_001, 1 << 18, 300_000, 300_001, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 1, 1_300_000, 2<<20 + 1, 4<<20 + 1})
	if r.P(12) {
		n = pick(r, []int{8<<20 + 1, 10<<20 + 1, 16<<20 + 5})
	}
	if len(c.Files) == 0 && len(c.Stdin) > 0 && c.Argv == nil {
		c.InFill = n
		return
	}
	files := c.Files
	for i := range c.Reqs {
		if c.Reqs[i].T == "edit" {
			if c.Reqs[i].Loop {
				return
			}
			files = append(files[:len(files):len(files)], c.Reqs[i].Files...)
		}
	}
	for i := range c.Nodes {
		nd := &c.Nodes[i]
		for _, f := range files {
			if nd.Path == f && nd.Kind == "" && (r.P(60) || i+1 == len(c.Nodes)) {
				nd.Fill = n
				return
			}
		}
	}
}

// Verdict is what a request reported about one file.
type Verdict struct {
	Name string
	OK   bool
	Line string
}

// Out is the outcome of one run in terms of its entry point.
type Out struct {
	*Result
	Verdicts []Verdict
	Reported bool   // verdicts are visible to the user (not in quiet mode)
	Failed   bool   // the request as a whole reported failure
	Answered bool   // the request came back at all
	Text     string // tool answer
	IsErr    bool
	Iter     int
	Proto    string // breach of the protocol by the answer itself
}

func runMain(argv []string) func() {
	return func() {
		os.Args = argv
		main()
	}
}

// ex runs the case's edit request on the given machine.
func (c *Case) ex(k *Kernel) *Out { return c.exCtx(k, context.Background()) }

func (c *Case) exCtx(k *Kernel, ctx context.Context) *Out {
	out := &Out{}
	text := c.Script.Text()
	switch c.Entry {
	case "", "cli":
		argv := c.Argv
		if argv == nil {
			argv = c.argv()
		}
		out.Result = Run(k, c.O, runMain(argv))
		out.Answered = out.Exited || out.Returned
		out.Failed = out.Exit != 0
		out.Reported = !c.Edit.Quiet && c.BadFmt == ""
		out.Verdicts = cliVerdicts(string(k.Stdout))
	case "lib":
		var rs []texted.EditResult
		var err error
		out.Result = Run(k, c.O, func() {
			switch {
			case len(c.Files) == 1 && c.LibFn%2 == 0:
				var e error
				if c.LibFn%4 == 0 || c.Script.Syntax == "json" || c.BadFmt != "" {
					e = texted.EditFileWithFormat(c.Files[0], text, c.format())
				} else {
					e = texted.EditFile(c.Files[0], text)
				}
				rs = []texted.EditResult{{Filename: c.Files[0], Success: e == nil, Error: e}}
			case c.LibFn%4 == 1 || c.Script.Syntax == "json" || c.BadFmt != "":
				rs, err = texted.EditFilesWithFormat(c.Files, text, c.format())
			default:
				rs, err = texted.EditFiles(c.Files, text)
			}
		})
		out.Answered = out.Returned
		out.Reported = out.Returned
		for _, r := range rs {
			out.Verdicts = append(out.Verdicts, Verdict{r.Filename, r.Success, fmt.Sprint(r.Error)})
			if !r.Success {
				out.Failed = true
			}
			if r.Success && r.Error != nil || !r.Success && r.Error == nil {
				out.Proto = fmt.Sprintf("result for %s says success=%v with error %v", r.Filename, r.Success, r.Error)
			}
		}
		if err != nil {
			out.Failed = true
			out.Text = err.Error()
		}
	case "tool":
		var res *mcp.CallToolResult
		var err error
		out.Result = Run(k, c.O, func() {
			res, err = tools.EditFileHandler(ctx, editRequest(c.Files, text, c.Loop))
		})
		out.Answered = out.Returned
		if err != nil {
			out.Failed, out.IsErr = true, true
			out.Text = err.Error()
		} else if res != nil {
			out.toolAnswer(toolText(res), res.IsError)
		}
	case "mcp":
		s := &Session{}
		id := 7
		s.add(fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"sim","version":"1"}}}`), true)
		s.add(`{"jsonrpc":"2.0","method":"notifications/initialized"}`, false)
		s.add(callLine(id, "edit_file", map[string]any{"script": text, "files": c.Files, "loopUntilError": c.Loop}), true)
		s.lock = true
		s.attach(k)
		out.Result = Run(k, c.O, runMain([]string{"texted", "mcp"}))
		s.parse(k)
		for _, a := range s.answers {
			if a.ID == fmt.Sprint(id) {
				out.Answered = true
				out.toolAnswer(a.Text, a.IsErr || a.Error)
			}
		}
	}
	return out
}

func (o *Out) toolAnswer(text string, isErr bool) {
	o.Text, o.IsErr = text, isErr
	o.Reported = !isErr
	if isErr {
		o.Failed = true
		return
	}
	o.Verdicts, o.Iter = toolVerdicts(text)
	o.Failed = !strings.HasPrefix(text, "All files edited successfully")
}

func toolText(res *mcp.CallToolResult) string {
	var sb strings.Builder
	for _, c := range res.Content {
		if t, ok := c.(mcp.TextContent); ok {
			sb.WriteString(t.Text)
		}
	}
	return sb.String()
}

func editRequest(files []string, script string, loop bool) mcp.CallToolRequest {
	var req mcp.CallToolRequest
	req.Params.Name = "edit_file"
	fs := make([]any, len(files))
	for i, f := range files {
		fs[i] = f
	}
	args := map[string]any{"script": script, "files": fs}
	if loop {
		args["loopUntilError"] = true
	}
	req.Params.Arguments = args
	return req
}

const (
	markOK  = "✓ "
	markBad = "✗ "
)

func cliVerdicts(s string) []Verdict {
	var out []Verdict
	for _, l := range strings.Split(s, "\n") {
		if n, ok := strings.CutPrefix(l, markOK+"Successfully edited "); ok {
			out = append(out, Verdict{n, true, l})
		} else if strings.HasPrefix(l, markOK) {
			out = append(out, Verdict{l, true, l})
		} else if n, ok := strings.CutPrefix(l, markBad); ok {
			out = append(out, Verdict{n, false, l})
		}
	}
	return out
}

// toolVerdicts reads an edit_file answer; failures are listed after successes.
func toolVerdicts(s string) ([]Verdict, int) {
	it := -1
	if i := strings.Index(s, " iterations:\n"); i >= 0 {
		head := s[:i]
		if j := strings.LastIndexByte(head, ' '); j >= 0 {
			fmt.Sscanf(head[j+1:], "%d", &it)
		}
	}
	return cliVerdicts(s), it
}

// names reports whether a verdict line speaks about file f.
func (v Verdict) names(f, suffix string) bool {
	if v.OK {
		return v.Name == f
	}
	if v.Name == f {
		return true
	}
	// "Failed to ... F: reason" or "... F for backup: reason"
	for _, t := range []string{" " + f + ": ", " " + f + suffix + ": ", " " + f + " for backup: "} {
		if strings.Contains(" "+v.Name, t) {
			return true
		}
	}
	return false
}

// Exp is the model's expectation for one file of a batch.
type Exp struct {
	OK     bool
	Odd    bool
	Why    string
	Before string // content when its turn comes
	After  string // content afterwards
	Ino    int    // 0: no such file
	Canon  string
}

// expectBatch says what a healthy machine does with the batch, taking aliases
// and repeated names into account. The second result maps inode to content.
func (c *Case) expectBatch(k *Kernel) ([]Exp, map[int]string) {
	cont := map[int]string{}
	byIno := map[int]*Inode{}
	for _, e := range k.Snapshot() {
		if e.Kind == "f" {
			cont[e.Ino] = e.Data
		}
	}
	var out []Exp
	// backups: which inodes are being edited, and which file (by inode) each
	// backup made so far belongs to (by inode, or by path if it is new)
	edited := map[int]bool{}
	made := map[string]int{}
	if c.Edit.Backup != "" {
		for _, f := range c.Files {
			if n, e := k.walk(f, true, true); e == 0 {
				edited[n.ID] = true
			}
		}
	}
	for _, f := range c.Files {
		x := Exp{Canon: k.canon(f)}
		n, e := k.walk(f, true, true)
		switch {
		case e != 0:
			x.Why = "missing or unreachable"
		case n.Kind != 'f':
			x.Why = "not a file"
		case !perm(n, 4):
			x.Why = "unreadable"
		}
		if n != nil && n.Kind == 'f' {
			byIno[n.ID] = n
			x.Ino = n.ID
			x.Before = cont[n.ID]
			x.After = x.Before
		}
		if x.Why == "" && c.BadFmt != "" {
			x.Why = "there is no such script format"
		}
		if x.Why == "" && c.Edit.Backup != "" {
			b, d, _, e := k.walk2(f+c.Edit.Backup, true, true)
			switch {
			case b != nil && (b.Kind != 'f' || !perm(b, 2)):
				x.Why = "backup not writable"
			case b == nil && (e != 2 || d == nil || !perm(d, 2)):
				x.Why = "backup not creatable"
			}
			id := "p" + k.canon(f+c.Edit.Backup)
			if b != nil {
				id = fmt.Sprint("i", b.ID)
			}
			if x.Why == "" {
				owner, ok := made[id]
				switch {
				case made[fmt.Sprint("i", n.ID)] != 0:
					x.Why = "it is the backup of another file"
				case ok && owner != n.ID:
					x.Why = "its backup is the backup of another file"
				case !ok && b != nil && edited[b.ID]:
					x.Why = "its backup is one of the files to edit"
				case !ok:
					made[id] = n.ID
				}
			}
		}
		if x.Why == "" {
			o := c.Script.Apply(x.Before)
			x.Odd = o.Odd
			if !o.OK {
				x.Why = "script fails"
			} else if !perm(n, 2) {
				x.Why = "unwritable"
			} else {
				x.OK = true
				x.After = o.Text
				cont[n.ID] = o.Text
			}
		}
		out = append(out, x)
	}
	return out, cont
}

// Viol is a property violation found in a case.
type Viol struct {
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Known string   `json:"known,omitempty"`
	Trace []string `json:"trace,omitempty"`
}

func viol(kind, f string, a ...any) *Viol { return &Viol{Kind: kind, Msg: fmt.Sprintf(f, a...)} }

func (v *Viol) with(k *Kernel) *Viol {
	if v != nil && v.Trace == nil {
		v.Trace = k.Trace(60)
	}
	return v
}

// sane reports violations every property shares: crash, hang, or a system
// call the simulated machine does not have.
func (o *Result) sane() *Viol {
	if len(o.K.Unsupported) > 0 {
		return viol("UNSUPPORTED", "the simulated kernel lacks: %v", o.K.Unsupported)
	}
	switch {
	case o.Panic != "":
		return viol("panic", "the program panicked: %s", o.Panic).with(o.K)
	case o.Stuck:
		return viol("stuck", "the program waits for ever").with(o.K)
	case o.Budget:
		return viol("no-end", "the program did not end within %d steps", o.Steps).with(o.K)
	}
	return nil
}

func short(s string) string {
	if len(s) > 90 {
		return fmt.Sprintf("%q...(%d bytes)...%q", s[:40], len(s), s[len(s)-30:])
	}
	return fmt.Sprintf("%q", s)
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
