package main

import (
	"context"
	"fmt"
	"strings"
	"syscall"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	etest "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
)

// Properties of streams and modes: C05, C08, C09, C10.

// genPlain makes a world with a few files and no request yet.
func genPlain(r *RNG, n, size int) *Case {
	c := &Case{Entry: "cli"}
	for _, f := range pickNames(r, n) {
		nd := Node{Path: f, Data: BStr(genText(r, size))}
		if r.P(10) {
			nd.Mode = pick(r, []uint32{0o600, 0o444, 0o200, 0o755})
		}
		c.Nodes = append(c.Nodes, nd)
	}
	return c
}

// diffTree compares two snapshots; except names the one path that may differ.
func diffTree(a, b []Entry, except string) string {
	am := map[string]Entry{}
	for _, e := range a {
		am[e.Path] = e
	}
	for _, e := range b {
		o, ok := am[e.Path]
		delete(am, e.Path)
		if e.Path == except {
			continue
		}
		if !ok {
			return e.Path + " was created"
		}
		if o.Data != e.Data {
			return fmt.Sprintf("%s changed from %s to %s", e.Path, short(o.Data), short(e.Data))
		}
		if o.Kind != e.Kind || o.Mode != e.Mode || o.UID != e.UID || o.Target != e.Target || o.Nlink != e.Nlink || o.Ino != e.Ino {
			return fmt.Sprintf("%s is now %s mode %o ino %d, was %s mode %o ino %d", e.Path, e.Kind, e.Mode, e.Ino, o.Kind, o.Mode, o.Ino)
		}
	}
	for _, p := range sortedKeys(am) {
		if p != except {
			return p + " was removed"
		}
	}
	return ""
}

// genExprs makes expressions for -e.
func genExprs(r *RNG, text string, failPct int) []Script {
	syn := pick(r, []string{"shell", "shell", "sexp", "json"})
	var out []Script
	for i := r.In(1, 3); i > 0; i-- {
		s := genScriptIn(r, text, genOpt{}, failPct, Script{Syntax: syn, Sep: r.N(100)})
		if s.Text() == "" {
			continue
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		out = append(out, Script{Syntax: syn, Stmts: []X{xc("point")}})
	}
	return out
}

func fmtArgs(syn string, style int) []string {
	if style%2 == 0 {
		return []string{"--" + syn}
	}
	return []string{"--format", syn}
}

// ---- C05

func genC05(r *RNG) []*Case {
	var c *Case
	switch r.N(12) {
	case 0, 1: // dry run in place
		c = genBatch(r, batchOpt{maxFiles: 4, size: 1, failPct: 10, bad: 10, backup: 40, links: r.P(20), entries: []string{"cli"}})
		c.Edit.DryRun = true
		c.Kind = "dry"
	case 2: // dry run to output or stdout
		c = genBatch(r, batchOpt{maxFiles: 1, size: 1, failPct: 10, bad: 5, entries: []string{"cli"}})
		c.Edit.InPlace, c.Edit.Backup, c.Edit.DryRun = false, "", true
		if r.P(50) {
			c.Edit.Out = pick(r, []string{"out.txt", "a.txt", "fresh/o"})
		}
		if r.P(30) {
			c.Files = nil
			c.Stdin = chunks(r, genText(r, 1), 50)
		}
		c.Kind = "dry"
	case 3, 4: // expressions
		c = genPlain(r, r.In(1, 3), 1)
		c.Kind = "expr"
		c.Edit.Style = r.N(60)
		for i, nd := range c.Nodes {
			if i < 2 && !r.P(10) {
				c.Files = append(c.Files, nd.Path)
			}
		}
		if r.P(20) {
			c.Files = nil
			c.Stdin = chunks(r, genText(r, 1), 50)
		}
		c.Edit.Exprs = genExprs(r, string(c.Nodes[0].Data), 15)
		c.Edit.OutFmt = pick(r, []string{"", "shell", "sexp", "json", "bogus"})
		if r.P(45) && len(c.Files) > 0 {
			c.Edit.InPlace = true
			if r.P(50) {
				c.Edit.Backup = ".bak"
			}
		}
		c.Edit.Quiet, c.Edit.Verbose = r.P(15), r.P(15)
	case 5, 6: // edit to standard output
		c = genBatch(r, batchOpt{maxFiles: 1, size: 1, failPct: 12, bad: 8, links: r.P(30), entries: []string{"cli"}})
		c.Edit.InPlace, c.Edit.Backup = false, ""
		if r.P(30) {
			c.Files = nil
			c.Stdin = chunks(r, genText(r, 2), 900)
		} else if r.P(20) && len(c.Nodes) > 1 {
			c.Files = append(c.Files, c.Nodes[len(c.Nodes)-1].Path) // several files: refused
		}
		c.Kind = "stdout"
	case 7, 8: // edit to an output file
		c = genBatch(r, batchOpt{maxFiles: 1, size: 1, failPct: 12, bad: 8, links: r.P(30), entries: []string{"cli"}})
		c.Edit.InPlace, c.Edit.Backup = false, ""
		c.Edit.Out = pick(r, []string{"out.txt", "o", "nosuchdir/out"})
		if r.P(40) {
			c.Nodes = append(c.Nodes, Node{Path: c.Edit.Out, Data: "old output\n"})
		}
		if r.P(30) {
			c.Files = nil
			c.Stdin = chunks(r, genText(r, 1), 50)
		}
		c.Kind = "outfile"
	case 9: // conversion, documentation
		c = genPlain(r, 2, 0)
		c.Kind = "plain"
		if r.P(50) {
			s := genScript(r, string(c.Nodes[0].Data), genOpt{}, 15)
			c.Argv = []string{"texted", "parse", "--input-format", s.Syntax, "--output-format", pick(r, []string{"shell", "sexp", "json"})}
			t := s.Text()
			if s.Syntax == "json" {
				t = s.JSONStream()
			}
			c.Stdin = chunks(r, t, 30)
		} else {
			c.Argv = append([]string{"texted", "doc"}, pick(r, [][]string{{}, {"insert"}, {"nope"}, {"--category", "search"}, {"-v"}, {"a", "b"}})...)
		}
	case 10: // tests
		c = &Case{Entry: "cli", Kind: "plain"}
		genTests(r, c, r.In(1, 4), 15)
		c.Argv = append([]string{"texted", "test"}, testFlags(r)...)
		if r.P(75) {
			for _, t := range c.Tests {
				c.Argv = append(c.Argv, t.Path)
			}
		}
	default: // read-only server conversation
		c = genPlain(r, 2, 0)
		c.Kind = "mcp"
		c.Lock = r.P(50)
		for i := r.In(1, 6); i > 0; i-- {
			q := genReq(r, len(c.Reqs)+1, nil, 25)
			if q.T == "edit" {
				continue
			}
			c.Reqs = append(c.Reqs, q)
		}
	}
	return c.vary(r, 3, func(v *Case, b *Out) {
		if r.P(25) {
			return
		}
		for i := r.In(1, 2); i > 0; i-- {
			if f, ok := faultFrom(r, b.K.Log, r.P(30), nil); ok {
				if r.P(25) {
					f.Every = 2
				}
				if c.Kind == "mcp" && strings.HasPrefix(f.Path, "<") && f.Kind != "short" {
					continue
				}
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(15) {
			v.Kill = genKill(r, b.K, b.Steps)
		}
	})
}

func evalC05(c *Case) *Viol {
	k := c.kernel(true)
	before := k.Snapshot()
	allow := ""
	if c.Kind == "outfile" {
		allow = k.canon(c.Edit.Out)
		if n, e := k.walk(c.Edit.Out, true, false); e == 0 && n.Nlink > 1 {
			return nil
		}
	}
	var bad *Viol
	k.OnMut = func(ev *Event) {
		if bad == nil && (allow == "" || ev.Path != allow || ev.Op != "open" && ev.Op != "write") {
			bad = viol("changes-disk", "a mode that only reads did: %s", ev.String())
		}
	}
	out := c.exAny(k)
	st.note(out.Result, true)
	if bad != nil {
		return bad.with(k)
	}
	if d := diffTree(before, k.Snapshot(), allow); d != "" {
		return viol("changes-disk", "%s", d).with(k)
	}
	if out.Killed != "" {
		return nil
	}
	return out.sane()
}

// exAny runs a case whatever its request is: a server conversation if it has
// messages, else a command.
func (c *Case) exAny(k *Kernel) *Out {
	if c.Kind == "mcp" {
		s := c.session()
		s.attach(k)
		out := &Out{Result: Run(k, c.O, runMain(mcpArgs(c.Reqs...)))}
		s.parse(k)
		return out
	}
	return c.ex(k)
}

// ---- C08

// genC08 makes sequences of requests in one process.
func genC08(r *RNG) []*Case {
	c := &Case{Kind: "seq", Entry: pick(r, []string{"lib", "tool", "mcp"})}
	if r.P(30) {
		return genC08Wide(r)
	}
	n := r.In(1, 4)
	base := genText(r, 1)
	for _, f := range pickNames(r, n) {
		nd := Node{Path: f, Data: BStr(base)}
		if r.P(15) {
			switch r.N(4) {
			case 0:
				nd.Kind, nd.Data = "dir", ""
			case 1:
				nd.Mode = 0o444
			case 2:
				nd.Mode = 0o200
			case 3:
				continue
			}
		}
		c.Nodes = append(c.Nodes, nd)
	}
	if len(c.Nodes) == 0 {
		c.Nodes = append(c.Nodes, Node{Path: "a.txt", Data: BStr(base)})
	}
	if c.Entry == "lib" && r.P(60) {
		genTests(r, c, r.In(1, 2), 10)
	}
	for i := r.In(2, 7); i > 0; i-- {
		q := genReq(r, len(c.Reqs)+1, c.Nodes, 20)
		if len(c.Tests) > 0 && r.P(40) {
			q = Req{T: "test", Files: []string{pick(r, c.Tests).Path}}
		}
		if c.Entry == "lib" && q.T != "test" && q.T != "edit" {
			q.T = "edit"
			q.Files = []string{pick(r, c.Nodes).Path}
		}
		c.Reqs = append(c.Reqs, q)
	}
	c.Lock = true
	var b *Kernel
	b = c.kernel(false)
	c.exSeq(b, nil)
	var out []*Case
	for i := 0; i < 4; i++ {
		v := *c
		v.Faults = nil
		for j := r.In(0, 3); j > 0; j-- {
			if f, ok := faultFrom(r, b.Log, r.P(15), func(e *Event) bool { return !strings.HasPrefix(e.Path, "<") }); ok {
				if f.Kind == "errno" && r.P(30) {
					f.Every = r.In(1, 3)
				}
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(15) {
			v.Full, v.Room = true, r.N(2000)
		}
		out = append(out, &v)
	}
	return out
}

// genC08Wide makes one request on many files, with few descriptors to spare.
func genC08Wide(r *RNG) []*Case {
	c := &Case{Kind: "wide", Entry: pick(r, []string{"cli", "lib", "tool", "mcp"}), LibFn: 1 + 2*r.N(2)}
	n := r.In(12, 40)
	text := genText(r, 0)
	c.Script = genScriptIn(r, text, genOpt{}, 10, Script{Syntax: "shell", Sep: r.N(100)})
	for i := 0; i < n; i++ {
		nd := Node{Path: fmt.Sprintf("many/f%02d", i), Data: BStr(text)}
		c.Files = append(c.Files, nd.Path)
		if r.P(8) {
			continue
		}
		if r.P(5) {
			nd.Mode = 0o444
		}
		c.Nodes = append(c.Nodes, nd)
	}
	if c.Entry == "cli" && r.P(30) { // only read
		c.Kind = "wide-read"
		c.Nodes = nil
		if r.P(50) {
			c.Files = nil
			genTests(r, c, n, 5)
			c.Argv = append([]string{"texted", "test"}, testFlags(r)...)
			for i := range c.Tests {
				c.Argv = append(c.Argv, c.Tests[i].Path)
			}
		} else {
			for _, f := range c.Files {
				c.Nodes = append(c.Nodes, Node{Path: f, Data: BStr(text)})
			}
			c.Edit.Exprs = []Script{{Syntax: "shell", Stmts: []X{xc(pick(r, []string{"point", "buffer-size"}))}}}
		}
	} else if c.Entry == "cli" {
		c.Edit.InPlace = true
		if r.P(40) {
			c.Edit.Backup = "~"
		}
		if c.Script.Text() == "" {
			c.Edit.ViaFile = true
		}
	}
	c.FDLimit = 8
	return []*Case{c}
}

// exSeq runs the requests one after the other in one process and calls after
// each of them. Entry lib uses the library directly, tool the handlers.
func (c *Case) exSeq(k *Kernel, after func(i int)) *Out {
	if c.Entry == "mcp" {
		s := c.session()
		s.lock = true
		s.onSend = func(i int) {
			if i > 0 && after != nil {
				after(i - 1)
			}
		}
		s.attach(k)
		out := &Out{Result: Run(k, c.O, runMain(mcpArgs(c.Reqs...)))}
		s.parse(k)
		if s.breach != "" {
			out.Proto = s.breach
		}
		return out
	}
	out := &Out{}
	out.Result = Run(k, c.O, func() {
		env := edlisp.NewDefaultEnvironment()
		for i := range c.Reqs {
			q := &c.Reqs[i]
			q.call(c.Entry, env)
			if after != nil && !k.dead {
				after(i)
			}
		}
	})
	return out
}

// call performs one request in the process and returns what it says.
func (q *Req) call(entry string, env *edlisp.Environment) string {
	ctx := context.Background()
	show := func(res *mcp.CallToolResult, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprintf("%v %s", res.IsError, toolText(res))
	}
	switch q.T {
	case "test":
		t := etest.RunTestFile(q.Files[0], env)
		return fmt.Sprintf("%s %v %v %q %q", t.Name, t.Passed, t.Error, t.Expected, t.Actual)
	case "edit":
		if entry == "lib" {
			var rs []texted.EditResult
			if len(q.Files) == 1 && q.Script.Sep%2 == 0 {
				e := texted.EditFile(q.Files[0], q.Script.Text())
				rs = []texted.EditResult{{Filename: q.Files[0], Success: e == nil, Error: e}}
			} else {
				rs, _ = texted.EditFilesWithFormat(q.Files, q.Script.Text(), q.Script.Syntax)
			}
			s := ""
			for _, r := range rs {
				s += fmt.Sprintf("%s %v %v\n", r.Filename, r.Success, r.Error)
			}
			return s
		}
		return show(tools.EditFileHandler(ctx, editRequest(q.Files, q.script(), false)))
	case "eval":
		var req mcp.CallToolRequest
		args := map[string]any{"input": q.filled(), "script": q.script()}
		if q.Output != "" {
			args["output"] = q.Output
		}
		req.Params.Arguments = args
		return show(tools.TextedEvalHandler(ctx, req))
	case "doc":
		var req mcp.CallToolRequest
		args := map[string]any{}
		if q.Func != "" {
			args["function_name"] = q.named(q.Func)
		}
		if q.Cat != "" {
			args["category"] = q.named(q.Cat)
		}
		args["verbose"] = q.Verb
		req.Params.Arguments = args
		return show(tools.TextedDocHandler(ctx, req))
	}
	return ""
}

func evalC08(c *Case) *Viol {
	k := c.kernel(true)
	if c.Kind == "wide-read" {
		out := c.exAny(k)
		st.note(out.Result, true)
		if v := out.sane(); v != nil {
			return v
		}
		if k.maxOpen > 8 {
			return viol("descriptors-grow", "%d descriptors were open at once while reading %d files", k.maxOpen, len(c.Files)+len(c.Tests)).with(k)
		}
		for _, e := range k.Log {
			if e.Fault == "EMFILE-limit" {
				return viol("descriptors-grow", "reading %d files ran out of descriptors although 8 were free", len(c.Files)+len(c.Tests)).with(k)
			}
		}
		return nil
	}
	if c.Kind == "wide" {
		exps, _ := c.expectBatch(k)
		out := c.ex(k)
		st.note(out.Result, true)
		if v := out.sane(); v != nil {
			return v
		}
		if k.maxOpen > 8 {
			return viol("descriptors-grow", "%d descriptors were open at once while editing %d files", k.maxOpen, len(c.Files)).with(k)
		}
		for _, e := range k.Log {
			if e.Fault == "EMFILE-limit" {
				return viol("descriptors-grow", "the edit of %d files ran out of descriptors although 8 were free", len(c.Files)).with(k)
			}
		}
		for i, x := range exps {
			got, _ := k.Content(c.Files[i])
			if x.Ino != 0 && !x.Odd && got != x.After {
				return viol("not-edited", "%s holds %s, want %s", c.Files[i], short(got), short(x.After)).with(k)
			}
		}
		if c.Entry != "cli" && k.OpenFDs() > 0 {
			return viol("leak", "%d descriptors still open after the request: %v", k.OpenFDs(), k.openPaths()).with(k)
		}
		return nil
	}
	var bad *Viol
	out := c.exSeq(k, func(i int) {
		if bad == nil && k.OpenFDs() > 0 {
			bad = viol("leak", "after request %d (%s %v) %d descriptors are still open: %v", i, c.Reqs[i].T, c.Reqs[i].Files, k.OpenFDs(), k.openPaths()).with(k)
		}
	})
	st.note(out.Result, len(k.FaultFired) > 0)
	if bad != nil {
		return bad
	}
	return out.sane()
}

func (k *Kernel) openPaths() []string {
	m := map[string]int{}
	for _, f := range k.fds {
		if f.ino != nil {
			m[f.path]++
		}
	}
	return sortedKeys(m)
}

// ---- C09

func genC09(r *RNG) []*Case {
	var c *Case
	switch r.N(9) {
	case 0, 1: // stdin edit, expressions on stdin
		c = &Case{Entry: "cli", Kind: "stdin"}
		text := genText(r, 2)
		if r.P(70) {
			c.Script = genScript(r, text, genOpt{long: true}, 10)
			c.Edit.ViaFile = r.P(35) || c.Script.Text() == ""
			if r.P(25) {
				c.Edit.Out = "out"
			}
		} else {
			c.Edit.Exprs = genExprs(r, text, 10)
			c.Edit.OutFmt = pick(r, []string{"", "shell", "sexp", "json"})
		}
		c.Edit.Verbose = r.P(10)
		c.Edit.Style = r.N(60)
		c.Stdin = []BStr{BStr(text)}
		if text == "" {
			c.Stdin = nil
		}
	case 2, 3: // conversion
		c = &Case{Entry: "cli", Kind: "parse"}
		text := genText(r, 1)
		s := genScript(r, text, genOpt{long: true, big: true}, 12)
		t := s.Text()
		if s.Syntax == "json" {
			t = s.JSONStream()
		}
		if r.P(10) { // long lines
			t = "insert " + xs(sized(r, r.In(3000, 66000))).Sexp() + "\npoint"
			s.Syntax = "shell"
		}
		c.Argv = []string{"texted", "parse", "--input-format", s.Syntax, "--output-format", pick(r, []string{"shell", "sexp", "json"})}
		c.Stdin = []BStr{BStr(t)}
		if t == "" {
			c.Stdin = nil
		}
	case 4, 5, 6: // files
		c = genBatch(r, batchOpt{maxFiles: 3, size: 2, failPct: 8, bad: 5, backup: 20})
		if r.P(30) && c.Entry == "cli" {
			c.Files = c.Files[:1]
			c.Edit.InPlace, c.Edit.Backup = false, ""
			if r.P(40) {
				t := ""
				if len(c.Nodes) > 0 {
					t = string(c.Nodes[0].Data)
				}
				c.Edit.Exprs = genExprs(r, t, 10)
			} else if r.P(40) {
				c.Edit.Out = "out"
			}
		}
	case 7: // tests
		c = &Case{Entry: "cli"}
		genTests(r, c, r.In(1, 3), 10)
		c.Argv = append([]string{"texted", "test"}, testFlags(r)...)
		for _, t := range c.Tests {
			c.Argv = append(c.Argv, t.Path)
		}
	default: // server conversation
		c = genPlain(r, 2, 1)
		c.Kind = "mcp"
		for i := r.In(1, 6); i > 0; i-- {
			if r.P(20) {
				c.Reqs = append(c.Reqs, genBadReq(r, len(c.Reqs)+1, nodeNames(c.Nodes)...))
			} else {
				c.Reqs = append(c.Reqs, genReq(r, len(c.Reqs)+1, c.Nodes, 15))
			}
		}
	}
	return c.vary(r, 4, func(v *Case, b *Out) {
		all := ""
		for _, s := range c.Stdin {
			all += string(s)
		}
		if all != "" {
			v.Stdin = chunks(r, all, pick(r, []int{1, 2, 5, 40, 300, 4000, 40000}))
			if len(v.Stdin) > 3000 {
				v.Stdin = chunks(r, all, len(all)/500+1)
			}
		}
		if c.Kind == "mcp" {
			m := pick(r, []int{1, 3, 20, 200, 2000})
			for i := 0; i < 300; i++ {
				v.Cut = append(v.Cut, r.In(1, 2*m))
			}
		}
		for i := r.N(3); i > 0; i-- {
			if f, ok := faultFrom(r, b.K.Log, true, nil); ok {
				if r.P(70) {
					f.Every = r.In(1, 4)
					if f.Kind == "intr" {
						f.Every++
					}
				}
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(30) {
			v.OutMax = pick(r, []int{1, 7, 100, 1000, 4096, 30000})
			if v.OutMax < 100 && len(b.K.Stdout) > 20000 {
				v.OutMax = 700
			}
		}
	})
}

func evalC09(c *Case) *Viol {
	plain := *c
	plain.Cut, plain.Faults, plain.OutMax = nil, nil, 0
	k0 := plain.kernel(false)
	o0 := plain.exAny(k0)
	k1 := c.kernel(true)
	o1 := c.exAny(k1)
	st.note(o1.Result, len(k1.FaultFired) > 0 || len(c.Stdin) > 1 || len(c.Cut) > 0)
	if errorFault(k1) {
		return nil
	}
	if v := o1.sane(); v != nil {
		return v
	}
	if v := o0.sane(); v != nil {
		return v
	}
	if o0.Exit != o1.Exit {
		return viol("exit-differs", "exit status %d when delivered in pieces, %d at once (stderr %s)", o1.Exit, o0.Exit, short(string(k1.Stderr))).with(k1)
	}
	if string(k0.Stdout) != string(k1.Stdout) {
		return viol("output-differs", "standard output %s when delivered in pieces, %s at once", short(string(k1.Stdout)), short(string(k0.Stdout))).with(k1)
	}
	if fmt.Sprint(o0.Verdicts) != fmt.Sprint(o1.Verdicts) || o0.Text != o1.Text {
		return viol("answer-differs", "answer %v %s in pieces, %v %s at once", o1.Verdicts, short(o1.Text), o0.Verdicts, short(o0.Text)).with(k1)
	}
	if d := diffTree(k0.Snapshot(), k1.Snapshot(), ""); d != "" {
		return viol("files-differ", "delivered in pieces instead of at once: %s", d).with(k1)
	}
	return nil
}

// ---- C10

func genC10(r *RNG) []*Case {
	c := &Case{Entry: "cli"}
	text := genText(r, 2)
	mode := pick(r, []string{"edit", "edit", "out", "expr", "parse", "batch"})
	fromFile := r.P(50)
	c.Edit.Style = r.N(60)
	c.Edit.Verbose = r.P(10)
	c.Edit.Quiet = r.P(10)
	c.Mode = mode
	switch mode {
	case "parse":
		fromFile = false
		s := genScript(r, text, genOpt{long: true, big: true}, 5)
		c.Argv = []string{"texted", "parse", "--input-format", s.Syntax, "--output-format", pick(r, []string{"shell", "sexp", "json"})}
		t := s.Text()
		if s.Syntax == "json" {
			t = s.JSONStream()
		}
		text = t
	case "expr":
		c.Edit.Exprs = genExprs(r, text, 4)
		c.Edit.OutFmt = pick(r, []string{"", "shell", "sexp", "json"})
	case "batch":
		c = genBatch(r, batchOpt{maxFiles: 3, size: 1, failPct: 0, entries: []string{"cli"}, backup: 20})
		c.Edit.ViaFile = true
		c.Mode = mode
		fromFile = true
	default:
		c.Script = genScript(r, text, genOpt{long: true, big: true}, 4)
		c.Edit.ViaFile = r.P(45) || c.Script.Text() == ""
		if mode == "out" {
			c.Edit.Out = pick(r, []string{"out.txt", "o"})
			if r.P(50) {
				c.Nodes = append(c.Nodes, Node{Path: c.Edit.Out, Data: "previous\n"})
			}
		}
	}
	if mode != "batch" {
		if fromFile {
			c.Files = []string{"in.txt"}
			c.Nodes = append(c.Nodes, Node{Path: "in.txt", Data: BStr(text)})
		} else {
			c.Stdin = chunks(r, text, r.In(1, max(2, len(text))))
			if len(c.Stdin) > 2000 {
				c.Stdin = []BStr{BStr(text)}
			}
		}
	}
	return c.vary(r, 5, func(v *Case, b *Out) {
		src := func(e *Event) bool {
			return e.Op == "read" && (e.Path == "<stdin>" || e.Path == scriptPath || mode != "batch" && strings.HasSuffix(e.Path, "/in.txt")) ||
				e.Op == "open" && (e.Path == scriptPath || mode != "batch" && strings.HasSuffix(e.Path, "/in.txt"))
		}
		if mode == "batch" || r.P(50) {
			v.Kind = "read"
			if len(c.Files) == 0 && r.P(50) {
				// the stream fails after any number of bytes
				cut := r.N(len(text) + 1)
				v.Stdin = chunks(r, text[:cut], max(1, cut/2))
				v.StdinErr = pick(r, []int{int(syscall.EIO), int(syscall.ECONNRESET), int(syscall.EISDIR)})
			} else if f, ok := faultFrom(r, b.K.Log, false, src); ok {
				v.Faults = []Fault{f}
			}
			if r.P(20) { // deliver in small pieces too
				if f, ok := faultFrom(r, b.K.Log, true, src); ok && f.Kind == "short" {
					f.Every = 1
					v.Faults = append(v.Faults, f)
				}
			}
			return
		}
		v.Kind = "write"
		if mode == "out" {
			if f, ok := faultFrom(r, b.K.Log, false, func(e *Event) bool {
				return strings.HasSuffix(e.Path, "/"+c.Edit.Out) && (e.Op == "open" || e.Op == "write" || e.Op == "close")
			}); ok {
				v.Faults = []Fault{f}
			}
			if r.P(30) {
				v.Full, v.Room = true, r.N(len(text)+20)
			}
			return
		}
		n := len(b.K.Stdout)
		if n == 0 {
			return
		}
		if r.P(50) || c.Edit.Verbose {
			v.OutFail = true
			v.OutLimit = r.N(n)
			v.OutErr = pick(r, []int{int(syscall.EIO), int(syscall.ENOSPC)})
		} else if f, ok := faultFrom(r, b.K.Log, false, func(e *Event) bool { return e.Path == "<stdout>" && e.Op == "write" }); ok {
			f.Kind = "errno"
			v.Faults = []Fault{f}
		}
	})
}

var noteLines = []string{"Error", "Processing", "Evaluating", "Would", "===", "Writing"}

func evalC10(c *Case) *Viol {
	k := c.kernel(true)
	before := k.Snapshot()
	out := c.ex(k)
	fired := false
	for _, e := range k.Log {
		if e.Fault == "" || e.Fault == "EINTR" || e.Fault == "short" {
			continue
		}
		switch c.Kind {
		case "read":
			fired = fired || (e.Op == "read" || e.Op == "open") && (e.Path == "<stdin>" || e.Path == scriptPath || c.Mode != "batch" && e.Path == "/w/in.txt")
		case "write":
			fired = fired || e.Path == "<stdout>" || c.Edit.Out != "" && e.Path == k.canon(c.Edit.Out)
			// a full disk lets a shorter write through; only the final verdict counts
			if e.Fault == "disk-full" && e.Err == "" {
				fired = true
			}
		}
	}
	st.note(out.Result, fired)
	if v := out.sane(); v != nil {
		return v
	}
	if !fired {
		return nil
	}
	if out.Exit == 0 && c.Kind == "write" && c.Edit.Verbose && !c.Edit.Quiet && c.Edit.Out == "" {
		// only the progress note may be lost without anybody being told
		h := *c
		h.Faults, h.OutFail, h.Full = nil, false, false
		b := h.ex(h.kernel(false))
		want := string(b.K.Stdout)
		if i := strings.IndexByte(want, '\n'); i >= 0 && strings.HasPrefix(want, "Processing ") {
			want = want[i+1:]
		}
		if strings.HasSuffix(string(k.Stdout), want) {
			return nil
		}
	}
	if out.Exit == 0 {
		return viol(c.Kind+"-error-ignored", "a stream failed (%v) but the exit status is 0", k.FaultFired).with(k)
	}
	if c.Kind == "read" {
		for _, l := range strings.Split(string(k.Stdout), "\n") {
			ok := l == ""
			for _, p := range noteLines {
				ok = ok || strings.HasPrefix(l, p)
			}
			if !ok && !strings.HasPrefix(l, markBad) && c.Edit.Exprs == nil {
				return viol("partial-output", "the input failed but %s was printed", short(l)).with(k)
			}
			if !ok && c.Edit.Exprs != nil {
				return viol("partial-output", "the input failed but a result was printed: %s", short(l)).with(k)
			}
		}
		for _, e := range k.Log {
			if e.Mut {
				return viol("partial-effect", "the input failed but %s", e.String()).with(k)
			}
		}
		if d := diffTree(before, k.Snapshot(), ""); d != "" {
			return viol("partial-effect", "the input failed but %s", d).with(k)
		}
	}
	return nil
}
