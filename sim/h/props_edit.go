package main

import (
	"fmt"
	"path"
	"strings"
	"syscall"
)

// Properties of edits: C01 to C08.

var errnos = map[string][]int{
	"open":    {int(syscall.EIO), int(syscall.EACCES), int(syscall.EMFILE), int(syscall.ENOSPC), int(syscall.EROFS), int(syscall.ENFILE), int(syscall.EPERM), int(syscall.ETXTBSY), int(syscall.ENOMEM)},
	"read":    {int(syscall.EIO), int(syscall.EISDIR), int(syscall.ESTALE), int(syscall.ENOMEM)},
	"write":   {int(syscall.ENOSPC), int(syscall.EIO), int(syscall.EDQUOT), int(syscall.EFBIG), int(syscall.EPIPE)},
	"close":   {int(syscall.EIO), int(syscall.ENOSPC), int(syscall.EDQUOT)},
	"stat":    {int(syscall.EIO)},
	"readdir": {int(syscall.EIO)},
	"fsync":   {int(syscall.EIO)},
}

// faultFrom turns one call of a recorded healthy history into a fault.
func faultFrom(r *RNG, log []Event, benign bool, ok func(*Event) bool) (Fault, bool) {
	var idx []int
	for i := range log {
		e := &log[i]
		if _, can := errnos[e.Op]; !can && e.Op != "truncate" && e.Op != "rename" && e.Op != "unlink" && e.Op != "chmod" {
			continue
		}
		if e.Path == "<stderr>" || ok != nil && !ok(e) {
			continue
		}
		if benign && e.Op != "read" && e.Op != "write" && e.Op != "open" {
			continue
		}
		idx = append(idx, i)
	}
	if len(idx) == 0 {
		return Fault{}, false
	}
	i := pick(r, idx)
	if r.P(50) { // writes, and what surrounds them, matter most
		var w []int
		for _, j := range idx {
			if log[j].Op == "write" || log[j].Mut {
				w = append(w, j)
			}
		}
		if len(w) > 0 {
			i = pick(r, w)
		}
	}
	e := &log[i]
	f := Fault{Op: e.Op, Path: e.Path}
	for j := 0; j < i; j++ {
		if log[j].Op == e.Op && log[j].Path == e.Path {
			f.Nth++
		}
	}
	if benign {
		switch {
		case e.Op == "open" || r.P(35):
			f.Kind = "intr"
		default:
			f.Kind = "short"
			f.N = r.In(1, max(1, e.N))
			if r.P(40) {
				f.N = r.In(1, 3)
			}
		}
		return f, true
	}
	f.Kind = "errno"
	f.Errno = int(syscall.EIO)
	if l := errnos[e.Op]; l != nil {
		f.Errno = pick(r, l)
		if f.Errno == int(syscall.EPIPE) && strings.HasPrefix(e.Path, "<") {
			f.Errno = int(syscall.EIO) // the signal would come first
		}
	}
	if e.Op == "write" && e.N > 0 && r.P(35) {
		f.Kind = "partial"
		f.N = r.N(e.N)
	}
	return f, true
}

var entries = []string{"cli", "cli", "cli", "cli", "lib", "lib", "tool", "mcp"}

type batchOpt struct {
	maxFiles int
	size     int
	failPct  int  // script fails
	bad      int  // percent of files that cannot be edited
	links    bool // aliases and neighbours
	entries  []string
	backup   int // percent, cli only
	long     bool
}

// genBatch makes a world and an in-place edit of several files in it.
func genBatch(r *RNG, o batchOpt) *Case {
	c := &Case{}
	if o.entries == nil {
		o.entries = entries
	}
	c.Entry = pick(r, o.entries)
	c.LibFn = r.N(4)
	n := 1
	if o.maxFiles > 1 && r.P(70) {
		n = r.In(1, o.maxFiles)
		if r.P(4) {
			n = r.In(o.maxFiles, pick(r, []int{10, 20, 40}))
			o.size = 0
			if r.N(30) == 0 {
				n = pick(r, []int{130, 260, 300, 520, 1030})
			}
		}
	}
	names := pickNames(r, n)
	syn := pick(r, []string{"shell", "shell", "sexp", "json"})
	if syn == "json" && (c.Entry == "tool" || c.Entry == "mcp") {
		syn = "shell"
	}
	base := genText(r, o.size)
	c.Script = genScriptIn(r, base, genOpt{long: o.long, big: o.size > 0}, o.failPct, Script{Syntax: syn, Sep: r.N(1000)})
	for i, f := range names {
		nd := Node{Path: f}
		switch v := r.N(10); {
		case i == 0 || v < 4:
			nd.Data = BStr(base)
		case v < 7:
			nd.Data = BStr(base + fmt.Sprintf("tail %d\n", i))
		default:
			nd.Data = BStr(genText(r, o.size))
		}
		if r.P(20) {
			nd.Mode = pick(r, []uint32{0o600, 0o640, 0o755, 0o664, 0o666, 0o4755, 0o700})
		}
		if r.P(o.bad) {
			switch r.N(6) {
			case 0:
				c.Files = append(c.Files, f)
				continue // missing
			case 1:
				nd.Kind, nd.Data = "dir", ""
			case 2:
				nd.Mode = 0o200
			case 3:
				nd.Mode = 0o444
			case 4:
				nd.UID, nd.Mode = -1, 0o644
			case 5:
				nd.Kind = "nomode"
			}
		}
		c.Nodes = append(c.Nodes, nd)
		c.Files = append(c.Files, f)
	}
	// neighbours the edit must not touch
	for i := r.N(3); i > 0; i-- {
		c.Nodes = append(c.Nodes, Node{Path: fmt.Sprintf("other%d", i), Data: BStr(genLine(r))})
	}
	if c.Entry == "cli" {
		c.Edit.InPlace = true
		c.Edit.Style = r.N(60)
		c.Edit.ViaFile = r.P(25)
		c.Edit.Verbose = r.P(15)
		c.Edit.Quiet = r.P(15)
		if r.P(o.backup) {
			c.Edit.Backup = pick(r, []string{".bak", "~", ".orig", ".1"})
			if r.P(25) && len(names) > 0 {
				c.Nodes = append(c.Nodes, Node{Path: pick(r, names) + c.Edit.Backup, Data: "old backup\n"})
			}
		}
	}
	if (c.Entry == "cli" || c.Entry == "lib") && r.P(2) {
		c.BadFmt = pick(r, []string{"yaml", "-", "SHELL", "Json", "sexpr", "shell ", "lisp"})
	}
	if o.links {
		genLinks(r, c)
	}
	if c.Script.Text() == "" && !c.Edit.ViaFile && c.Entry == "cli" {
		c.Edit.ViaFile = true
	}
	c.O.RSeed = uint64(r.N(4))
	return c
}

func genLinks(r *RNG, c *Case) {
	if len(c.Files) == 0 {
		return
	}
	i := r.N(len(c.Files))
	f := c.Files[i]
	has := false
	for _, nd := range c.Nodes {
		if nd.Path == f && (nd.Kind == "" || nd.Kind == "file") {
			has = true
		}
	}
	if !has {
		return
	}
	switch r.N(5) {
	case 0: // a second name of an edited file
		c.Nodes = append(c.Nodes, Node{Path: "hl-" + path.Base(f), Kind: "hard", Target: f})
	case 1: // edited through a symbolic link
		c.Nodes = append(c.Nodes, Node{Path: "sl-" + path.Base(f), Kind: "sym", Target: "/w/" + f})
		c.Files[i] = "sl-" + path.Base(f)
	case 2: // edited through a hard link
		c.Nodes = append(c.Nodes, Node{Path: "hl-" + path.Base(f), Kind: "hard", Target: f})
		c.Files[i] = "hl-" + path.Base(f)
	case 3: // link in another directory, relative target, chain of links
		c.Nodes = append(c.Nodes, Node{Path: "lnk/one", Kind: "sym", Target: "../" + f}, Node{Path: "lnk/two", Kind: "sym", Target: "one"})
		c.Files[i] = "lnk/two"
	case 4: // pointed to by links that are not edited
		c.Nodes = append(c.Nodes, Node{Path: "sl-" + path.Base(f), Kind: "sym", Target: f})
	}
}

// distinct tells whether no file, alias or backup is named twice.
func (c *Case) distinct(k *Kernel) bool {
	seen := map[string]bool{}
	inos := map[int]bool{}
	for _, f := range c.Files {
		p := k.canon(f)
		if seen[p] {
			return false
		}
		seen[p] = true
		if n, e := k.walk(f, true, false); e == 0 && n.Kind == 'f' {
			if inos[n.ID] {
				return false
			}
			inos[n.ID] = true
		}
	}
	if c.Edit.Backup != "" {
		for _, f := range c.Files {
			p := k.canon(f + c.Edit.Backup)
			if seen[p] {
				return false
			}
			if n, e := k.walk(f+c.Edit.Backup, true, false); e == 0 {
				if inos[n.ID] {
					return false
				}
				inos[n.ID] = true
			}
			seen[p] = true
		}
	}
	return true
}

const (
	chkIntact = 1 << iota // failed file unchanged
	chkExact              // successful file exact
	chkOnce               // every file reported once, in order
	chkMustOK             // undisturbed file must succeed
	chkExit               // request fails iff some file failed
)

// touched tells whether a fault that can make a call fail struck file f.
func touched(k *Kernel, canon, backup string) bool {
	for _, e := range k.Log {
		if e.Fault == "" || e.Fault == "EINTR" || e.Fault == "short" {
			continue
		}
		if e.Path == canon || backup != "" && e.Path == canon+backup || strings.HasPrefix(e.Fault, "disk-full") || e.Fault == "EMFILE-limit" {
			return true
		}
	}
	return false
}

func errorFault(k *Kernel) bool {
	for _, e := range k.Log {
		if e.Fault != "" && e.Fault != "EINTR" && e.Fault != "short" {
			return true
		}
	}
	return false
}

// split pairs the files of the request with the verdicts.
func (c *Case) pair(out *Out) ([]*Verdict, *Viol) {
	vs := make([]*Verdict, len(c.Files))
	if len(out.Verdicts) != len(c.Files) {
		return nil, viol("report-count", "%d files named, %d verdicts reported: %v", len(c.Files), len(out.Verdicts), out.Verdicts)
	}
	if c.Entry == "tool" || c.Entry == "mcp" {
		// successes first, then failures, each in the order given
		used := make([]bool, len(c.Files))
		for pass := 0; pass < 2; pass++ {
			next := 0
			for i := range out.Verdicts {
				v := &out.Verdicts[i]
				if v.OK != (pass == 0) {
					continue
				}
				found := false
				for j := next; j < len(c.Files); j++ {
					if !used[j] && v.names(c.Files[j], "") {
						used[j], vs[j], found = true, v, true
						next = j + 1
						break
					}
				}
				if !found {
					return nil, viol("report-order", "verdict %q is not for the next file of %v", v.Line, c.Files)
				}
			}
		}
		return vs, nil
	}
	for i := range out.Verdicts {
		v := &out.Verdicts[i]
		if !v.names(c.Files[i], c.Edit.Backup) {
			return nil, viol("report-order", "verdict %d is %q, want one for %q", i, v.Line, c.Files[i])
		}
		vs[i] = v
	}
	return vs, nil
}

// judge checks the outcome of a batch against the model.
func (c *Case) judge(k *Kernel, out *Out, exps []Exp, chk int) *Viol {
	if out.Proto != "" {
		return viol("inconsistent-result", "%s", out.Proto)
	}
	if !out.Answered {
		return viol("no-answer", "the request never came back (exit=%d)", out.Exit)
	}
	var vs []*Verdict
	if out.Reported {
		var v *Viol
		vs, v = c.pair(out)
		if v != nil {
			if chk&chkOnce == 0 && v.Kind != "" {
				return nil
			}
			return v.with(k)
		}
	}
	anyFail := false
	for i, x := range exps {
		if x.Odd {
			return nil
		}
		got, exists := "", x.Ino != 0
		if exists {
			got, exists = k.Content(c.Files[i])
		}
		disturbed := touched(k, x.Canon, c.Edit.Backup) || c.Edit.ViaFile && touched(k, scriptPath, "")
		if vs == nil { // quiet: only the whole is known
			if x.Ino != 0 && chk&chkIntact != 0 && got != x.Before && got != x.After {
				return viol("neither-old-nor-new", "%s holds %s, neither its old content %s nor the result %s", c.Files[i], short(got), short(x.Before), short(x.After)).with(k)
			}
			if x.Ino != 0 && chk&chkExact != 0 && !out.Failed && got != x.After {
				return viol("success-wrong", "exit status 0 but %s holds %s, want %s", c.Files[i], short(got), short(x.After)).with(k)
			}
			if x.Ino != 0 && chk&(chkIntact|chkExact) != 0 && !x.OK && !out.Failed {
				return viol("failure-as-success", "the request succeeded (exit status 0) although for %s %s", c.Files[i], x.Why).with(k)
			}
			if chk&chkMustOK != 0 && x.OK && !disturbed && got != x.After && !(c.Edit.ViaFile && errorFault(k)) {
				return viol("others-affected", "%s was not edited although nothing is wrong with it: holds %s, want %s", c.Files[i], short(got), short(x.After)).with(k)
			}
			if !x.OK {
				anyFail = true
			}
			continue
		}
		v := vs[i]
		if !v.OK {
			anyFail = true
		}
		if v.OK && !x.OK {
			if chk&(chkIntact|chkExact|chkOnce) != 0 {
				return viol("failure-as-success", "%s reported as edited although %s", c.Files[i], x.Why).with(k)
			}
			continue
		}
		if !v.OK && chk&chkIntact != 0 && x.Ino != 0 && got != x.Before {
			return viol("failed-changed", "%s was reported failed (%q) but its content changed from %s to %s", c.Files[i], v.Line, short(x.Before), short(got)).with(k)
		}
		if v.OK && chk&chkExact != 0 && got != x.After {
			return viol("success-wrong", "%s was reported edited but holds %s, want %s", c.Files[i], short(got), short(x.After)).with(k)
		}
		if chk&chkMustOK != 0 && x.OK && !v.OK && !disturbed {
			return viol("spurious-failure", "%s was reported failed (%q) although nothing disturbed it", c.Files[i], v.Line).with(k)
		}
	}
	if vs != nil && anyFail && !out.Failed && chk&(chkIntact|chkExact) != 0 {
		return viol("failure-as-success", "some file was reported failed but the request as a whole reports success (exit status %d)", out.Exit).with(k)
	}
	if chk&chkExit != 0 {
		if vs != nil && out.Failed != anyFail {
			return viol("exit-status", "request failed=%v (exit %d) but some file failed=%v", out.Failed, out.Exit, anyFail).with(k)
		}
		if vs == nil && out.Failed != anyFail && !errorFault(k) {
			return viol("exit-status", "request failed=%v (exit %d) but some file should fail=%v", out.Failed, out.Exit, anyFail).with(k)
		}
	}
	return nil
}

// baseline runs the case undisturbed; generators use its history.
func (c *Case) baseline() *Out {
	cc := *c
	cc.Faults, cc.Kill = nil, nil
	k := cc.kernel(false)
	return cc.exAny(k)
}

// obstruct puts something at a path the program looked for or made in a
// healthy run and that nobody named: whatever it takes for its own (a left-over
// of an interrupted run, a cache, a lock) may as well be the user's.
func (c *Case) obstruct(r *RNG, log []Event) {
	k := c.kernel(false)
	var ps []string
	for i := range log {
		e := &log[i]
		for _, p := range []string{e.Path, e.Path2} {
			if !strings.HasPrefix(p, "/") || strings.HasPrefix(p, "/proc/") || strings.HasPrefix(p, "/sys/") {
				continue
			}
			if n, err := k.walk(p, false, false); err != syscall.ENOENT || n != nil {
				continue
			}
			if d, err := k.walk(path.Dir(p), true, false); err != 0 || d.Kind != 'd' {
				continue
			}
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return
	}
	p := pick(r, ps)
	for _, f := range c.Files {
		if p == k.canon(f) || p == k.canon(f+c.Edit.Backup) {
			return
		}
	}
	if c.Edit.Out != "" && p == k.canon(c.Edit.Out) {
		return
	}
	nd := Node{Path: p, Data: BStr(pick(r, []string{"", "1\n", "mine\n", "12345", genText(r, 0)}))}
	if r.P(15) {
		nd.Kind, nd.Data = "dir", ""
	}
	c.Nodes = append(append([]Node(nil), c.Nodes...), nd)
}

// baselineLog is what happened to files in a healthy run.
func (c *Case) baselineLog() []Event { return c.baseline().K.Log }

func onFiles(k *Kernel, c *Case) func(e *Event) bool {
	m := map[string]bool{}
	for _, f := range c.Files {
		m[k.canon(f)] = true
		if c.Edit.Backup != "" {
			m[k.canon(f+c.Edit.Backup)] = true
		}
	}
	return func(e *Event) bool { return m[e.Path] }
}

// ---- C01

func genC01(r *RNG) []*Case {
	if r.P(3) {
		return genRefusedMCP(r)
	}
	c := genBatch(r, batchOpt{maxFiles: 4, size: 2, failPct: 18, bad: 8, backup: 20})
	if !c.distinct(c.kernel(false)) {
		return nil
	}
	return c.vary(r, 5, func(v *Case, b *Out) {
		switch r.N(10) {
		case 0: // no fault: only the script may fail
		case 1, 2: // disk full
			v.Full = true
			v.Room = r.N(200)
			if r.P(50) {
				v.Room = r.N(12000)
			}
		default:
			if f, ok := faultFrom(r, b.K.Log, false, onFiles(b.K, c)); ok {
				v.Faults = []Fault{f}
			}
		}
		if r.P(20) {
			if f, ok := faultFrom(r, b.K.Log, true, nil); ok {
				v.Faults = append(v.Faults, f)
			}
		}
	})
}

// vary makes n disturbed variants of a case.
func (c *Case) vary(r *RNG, n int, f func(v *Case, b *Out)) []*Case {
	if one := 1000; !c.Loop {
		if len(c.Reqs) > 0 {
			one = 150
		}
		if r.N(one) == 0 {
			c.bigify(r)
		}
	}
	b := c.baseline()
	var out []*Case
	for i := 0; i < n; i++ {
		v := *c
		v.Faults = nil
		f(&v, b)
		if r.P(10) {
			v.obstruct(r, b.K.Log)
		}
		if r.P(5) {
			v.O.Slow = pick(r, []int64{50, 5000, 300_000, 2_000_000})
		}
		out = append(out, &v)
	}
	return out
}

// genRefusedMCP makes conversations in which every edit is to be refused.
func genRefusedMCP(r *RNG) []*Case {
	c := genPlain(r, 3, 0)
	c.Kind, c.Entry = "refused-mcp", "mcp"
	c.Reqs = []Req{{T: "init", ID: "0"}}
	if r.P(40) {
		c.Reqs = nil
	}
	for i := r.In(1, 4); i > 0; i-- {
		c.Reqs = append(c.Reqs, badEdit(r, len(c.Reqs)+1, nodeNames(c.Nodes)))
	}
	c.O.RSeed = uint64(r.N(6))
	return []*Case{c}
}

func (c *Case) judgeRefusedMCP() *Viol {
	k := c.kernel(true)
	before := k.Snapshot()
	s := c.session()
	s.attach(k)
	res := Run(k, c.sessionOpts(), runMain(mcpArgs(c.Reqs...)))
	s.parse(k)
	st.note(res, true)
	if v := res.sane(); v != nil {
		return v
	}
	if d := diffTree(before, k.Snapshot(), ""); d != "" {
		return viol("failed-changed", "no request could be carried out as asked, but %s", d).with(k)
	}
	for _, a := range s.answers {
		for i := range c.Reqs {
			if q := &c.Reqs[i]; q.T == "raw" && q.ID == a.ID && !a.Error && !a.IsErr {
				return viol("failure-as-success", "request %s cannot be carried out as asked but is answered with %s", short(string(q.Raw)), short(a.Raw)).with(k)
			}
		}
	}
	return nil
}

func evalC01(c *Case) *Viol {
	if c.Kind == "refused-mcp" {
		return c.judgeRefusedMCP()
	}
	k := c.kernel(true)
	if !c.distinct(k) {
		return nil
	}
	exps, _ := c.expectBatch(k)
	out := c.ex(k)
	st.note(out.Result, len(k.FaultFired) > 0 || c.Script.Broken)
	if v := out.sane(); v != nil {
		return v
	}
	return c.judge(k, out, exps, chkIntact|chkExact)
}

// ---- C02

func genC02(r *RNG) []*Case {
	var c *Case
	mode := r.N(10)
	switch {
	case mode == 0 && r.P(20):
		return genRefused(r)
	case mode < 5:
		c = genBatch(r, batchOpt{maxFiles: 3, size: 2, failPct: 6, bad: 3, backup: 10, long: true})
		if !c.distinct(c.kernel(false)) {
			return nil
		}
		c.Kind = "inplace"
	default:
		c = &Case{Entry: "cli"}
		text := genText(r, 2)
		c.Script = genScript(r, text, genOpt{long: true, big: true}, 8)
		c.Edit.Style = r.N(60)
		c.Edit.ViaFile = r.P(25) || c.Script.Text() == ""
		c.Edit.Verbose = r.P(10)
		c.Edit.Quiet = r.P(10)
		if r.P(55) {
			c.Files = pickNames(r, 1)
			c.Nodes = append(c.Nodes, Node{Path: c.Files[0], Data: BStr(text)})
		} else {
			c.Stdin = chunks(r, text, r.In(1, len(text)+1))
		}
		c.Kind = "stdout"
		if r.P(55) {
			c.Kind = "outfile"
			c.Edit.Out = pick(r, []string{"out.txt", "res/out.txt", "o"})
			switch r.N(6) {
			case 0, 1, 2:
				c.Nodes = append(c.Nodes, Node{Path: c.Edit.Out, Data: BStr(genText(r, 1))})
			case 3:
				if strings.Contains(c.Edit.Out, "/") {
					c.Nodes = append(c.Nodes, Node{Path: "res", Kind: "dir"})
				}
			case 4:
				c.Nodes = append(c.Nodes, Node{Path: c.Edit.Out, Mode: 0o444, Data: "ro"})
			case 5:
				if len(c.Files) == 1 {
					c.Edit.Out = c.Files[0] // onto itself
				}
			}
		}
	}
	return c.vary(r, 5, func(v *Case, b *Out) {
		for i := r.N(4); i > 0; i-- {
			if f, ok := faultFrom(r, b.K.Log, r.P(65), nil); ok {
				if (strings.HasPrefix(f.Path, "<") && c.Kind == "inplace" || f.Path == "<stdout>" && c.Edit.Verbose) && f.Kind != "intr" && f.Kind != "short" {
					continue
				}
				if f.Kind == "intr" && r.P(30) || f.Kind == "short" && r.P(50) {
					f.Every = r.In(2, 4)
				}
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(12) {
			v.Full, v.Room = true, r.N(9000)
		}
		if r.P(20) {
			v.OutMax = r.In(1, 5000)
		}
	})
}

// genRefused makes edit commands whose flags contradict one another or leave
// open what to do: no reading of them makes success true.
func genRefused(r *RNG) []*Case {
	c := &Case{Entry: "cli", Kind: "refused"}
	text := genText(r, 0)
	c.Script = genScript(r, text, genOpt{}, 0)
	c.Edit.Style = r.N(60)
	c.Edit.ViaFile = r.P(25) || c.Script.Text() == ""
	c.Edit.Verbose, c.Edit.Quiet = r.P(10), r.P(15)
	n := r.In(1, 3)
	for _, f := range pickNames(r, n) {
		c.Files = append(c.Files, f)
		c.Nodes = append(c.Nodes, Node{Path: f, Data: BStr(text)})
	}
	switch r.N(5) {
	case 0: // two destinations
		c.Edit.InPlace, c.Edit.Out = true, "out.txt"
		c.Files = c.Files[:1]
	case 1: // a backup of a file that is not to change
		c.Edit.Backup = ".bak"
		c.Files = c.Files[:1]
		if r.P(40) {
			c.Edit.Out = "out.txt"
		}
	case 2: // several inputs, one output file
		c.Files = pickNames(r, 3)
		c.Edit.Out = "out.txt"
		c.Edit.InPlace = r.P(30)
		for _, f := range c.Files {
			c.Nodes = append(c.Nodes, Node{Path: f, Data: BStr(text)})
		}
	case 3: // several inputs, no destination
		c.Files = append(c.Files, "more.txt")
		c.Nodes = append(c.Nodes, Node{Path: "more.txt", Data: BStr(text)})
	case 4: // no script, or one that is not there
		c.Edit.InPlace = r.P(70)
		c.Argv = []string{"texted", "edit"}
		if c.Edit.InPlace {
			c.Argv = append(c.Argv, "-i")
		}
		if r.P(60) {
			c.Argv = append(c.Argv, "-f", "/w/no/such/script")
		}
		c.Argv = append(c.Argv, c.Files[:1]...)
	}
	if r.P(30) {
		c.Nodes = append(c.Nodes, Node{Path: "out.txt", Data: "old\n"})
	}
	return []*Case{c}
}

func (c *Case) judgeRefused() *Viol {
	e := &c.Edit
	if c.Argv == nil && !(e.InPlace && e.Out != "" || e.Backup != "" && !e.InPlace || len(c.Files) > 1 && (e.Out != "" || !e.InPlace)) {
		return nil
	}
	k := c.kernel(true)
	before := k.Snapshot()
	out := c.ex(k)
	st.note(out.Result, true)
	if v := out.sane(); v != nil {
		return v
	}
	if out.Exit == 0 {
		return viol("failure-as-success", "%q reports success although it cannot be carried out as asked", c.argvAll()).with(k)
	}
	if d := diffTree(before, k.Snapshot(), ""); d != "" {
		return viol("failed-changed", "%q was refused but %s", c.argvAll(), d).with(k)
	}
	if len(k.Stdout) > 0 {
		return viol("failed-changed", "%q was refused but printed %s", c.argvAll(), short(string(k.Stdout))).with(k)
	}
	return nil
}

func (c *Case) argvAll() []string {
	if c.Argv != nil {
		return c.Argv
	}
	return c.argv()
}

func evalC02(c *Case) *Viol {
	if c.Kind == "refused" {
		return c.judgeRefused()
	}
	k := c.kernel(true)
	if c.Kind == "inplace" {
		if !c.distinct(k) {
			return nil
		}
		exps, _ := c.expectBatch(k)
		out := c.ex(k)
		st.note(out.Result, len(k.FaultFired) > 0)
		if v := out.sane(); v != nil {
			return v
		}
		return c.judge(k, out, exps, chkExact|chkMustOK)
	}
	in := ""
	srcOK := true
	if len(c.Files) == 1 {
		in, srcOK = k.Content(c.Files[0])
	} else {
		in = c.stdinText()
	}
	o := c.Script.Apply(in)
	if o.Odd || !srcOK {
		return nil
	}
	dstOK := true
	if c.Edit.Out != "" {
		n, d, _, e := k.walk2(c.Edit.Out, true, true)
		if n != nil {
			dstOK = n.Kind == 'f' && perm(n, 2)
		} else {
			dstOK = e == syscall.ENOENT && d != nil && perm(d, 2)
		}
	}
	out := c.ex(k)
	st.note(out.Result, len(k.FaultFired) > 0)
	if v := out.sane(); v != nil {
		return v
	}
	if out.Exit == 0 {
		if !o.OK {
			return viol("failure-as-success", "the script fails on this input but the exit status is 0").with(k)
		}
		if c.Edit.Out != "" {
			got, ok := k.Content(c.Edit.Out)
			if !ok || got != o.Text {
				return viol("success-wrong", "exit status 0 but %s holds %s, want %s", c.Edit.Out, short(got), short(o.Text)).with(k)
			}
		} else {
			got := string(k.Stdout)
			if c.Edit.Verbose && !c.Edit.Quiet {
				if i := strings.IndexByte(got, '\n'); i >= 0 && strings.HasPrefix(got, "Processing ") {
					got = got[i+1:]
				}
			}
			if got != o.Text {
				return viol("success-wrong", "exit status 0 but standard output is %s, want %s", short(got), short(o.Text)).with(k)
			}
		}
		return nil
	}
	if o.OK && dstOK && !errorFault(k) {
		return viol("spurious-failure", "the edit failed (exit %d, stderr %s) although nothing disturbed it", out.Exit, short(string(k.Stderr))).with(k)
	}
	return nil
}

// ---- C03

func genC03(r *RNG) []*Case {
	c := genBatch(r, batchOpt{maxFiles: 4, size: 2, failPct: 5, bad: 12, backup: 15})
	if !c.distinct(c.kernel(false)) {
		return nil
	}
	return c.vary(r, 6, func(v *Case, b *Out) { v.Kill = genKill(r, b.K, b.Steps) })
}

// genKill picks an instant of a recorded healthy run.
func genKill(r *RNG, k *Kernel, steps int64) *Kill {
	if r.P(30) && steps > 0 {
		return &Kill{Step: 1 + int64(r.U()%uint64(steps))}
	}
	i := r.N(len(k.Log) + 1)
	if r.P(60) { // around changes
		var m []int
		for j := range k.Log {
			if k.Log[j].Mut {
				m = append(m, j)
			}
		}
		if len(m) > 0 {
			i = pick(r, m) + r.In(-1, 1)
		}
	}
	i = min(max(i, 0), len(k.Log)-1)
	if i < 0 {
		return &Kill{Step: 1}
	}
	kl := &Kill{Sys: k.Log[i].I, Phase: pick(r, []string{"before", "after"})}
	if k.Log[i].Op == "write" && k.Log[i].N > 0 && r.P(60) {
		kl.Phase = "mid"
		kl.N = r.N(k.Log[i].N)
	}
	return kl
}

func evalC03(c *Case) *Viol {
	k := c.kernel(true)
	if !c.distinct(k) || c.Kill == nil {
		return nil
	}
	exps, _ := c.expectBatch(k)
	out := c.ex(k)
	st.note(out.Result, out.Killed != "")
	if out.Killed == "" {
		return out.sane()
	}
	if len(k.Unsupported) > 0 {
		return out.sane()
	}
	// new* (in progress)? old*
	frontier := false
	var first string
	for i, x := range exps {
		if x.Ino == 0 {
			continue
		}
		if x.Odd {
			return nil
		}
		n := findIno(k, x.Ino)
		if n == nil {
			return viol("file-gone", "%s no longer exists after the kill", c.Files[i]).with(k)
		}
		got := string(n.Data)
		isOld, isNew := got == x.Before, got == x.After
		switch {
		case isOld && isNew:
		case isNew:
			if frontier {
				return viol("order", "%s already has its new content although the edit of %s is not complete", c.Files[i], first).with(k)
			}
		case isOld:
			if !frontier {
				frontier, first = true, c.Files[i]
			}
		default:
			v := viol("mixture", "killed (%s): %s holds %s, neither its old content %s nor its new content %s", out.Killed, c.Files[i], short(got), short(x.Before), short(x.After)).with(k)
			if frontier {
				v.Kind = "order"
				return v
			}
			frontier, first = true, c.Files[i]
			if x.OK && knownTruncWindow(k, out.Steps, x, got) {
				v.Known = "C03-truncating-write"
			}
			// files after the one in progress still have to be untouched
			for j := i + 1; j < len(exps); j++ {
				if y := exps[j]; y.Ino != 0 {
					if m := findIno(k, y.Ino); m == nil || string(m.Data) != y.Before {
						return viol("order", "%s changed although the edit of %s is not complete", c.Files[j], c.Files[i]).with(k)
					}
				}
			}
			return v
		}
	}
	return nil
}

func findIno(k *Kernel, id int) *Inode {
	var found *Inode
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if n.ID == id {
			found = n
		}
		for _, c := range n.Ents {
			if found == nil {
				rec(c)
			}
		}
	}
	rec(k.root)
	return found
}

// knownTruncWindow recognises the one recorded finding: the file is rewritten
// by opening it with truncation and writing the complete result at once, and
// the kill strikes between the two or inside the write.
func knownTruncWindow(k *Kernel, killStep int64, x Exp, got string) bool {
	if !strings.HasPrefix(x.After, got) {
		return false
	}
	t := -1
	for i, e := range k.Log {
		if e.Ino == x.Ino && e.Trunc {
			t = i
		}
	}
	if t < 0 {
		return false
	}
	last := k.Log[t].Step
	for _, e := range k.Log[t+1:] {
		if e.Ino != x.Ino && e.Path != k.Log[t].Path || e.Op == "read" || e.Op == "open" {
			return false
		}
		if e.Step-last > 40 {
			return false
		}
		last = e.Step
	}
	return killStep-last <= 40
}

// ---- C04

func genC04(r *RNG) []*Case {
	c := genBatch(r, batchOpt{maxFiles: 3, size: 2, failPct: 6, bad: 6, backup: 100, entries: []string{"cli"}})
	c.Edit.Quiet = false
	if r.P(30) {
		genLinks(r, c)
	}
	if r.P(30) {
		genAliases(r, c)
	}
	alias := !c.distinct(c.kernel(false))
	return c.vary(r, 6, func(v *Case, b *Out) {
		if r.P(55) {
			v.Kill = genKill(r, b.K, b.Steps)
		}
		for i := r.N(4); i > 0; i-- {
			if f, ok := faultFrom(r, b.K.Log, r.P(30), func(e *Event) bool { return !alias || e.Op != "stat" }); ok {
				if r.P(40) && !alias {
					f.Every = r.In(1, 3)
					if f.Kind == "intr" {
						f.Every++
					}
				}
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(15) {
			v.Full, v.Room = true, r.N(6000)
		}
	})
}

// genAliases makes files and backups of a batch coincide.
func genAliases(r *RNG, c *Case) {
	for n := r.In(1, 2); n > 0 && len(c.Files) > 0; n-- {
		f := pick(r, c.Files)
		bak := f + c.Edit.Backup
		at := r.N(len(c.Files) + 1)
		ins := func(name string) {
			c.Files = append(c.Files[:at:at], append([]string{name}, c.Files[at:]...)...)
		}
		has := func(p string) bool {
			for _, nd := range c.Nodes {
				if nd.Path == p {
					return true
				}
			}
			return false
		}
		switch r.N(7) {
		case 0, 1: // the same name again
			ins(f)
		case 2: // the backup of a file is edited as well
			if !has(bak) && r.P(70) {
				c.Nodes = append(c.Nodes, Node{Path: bak, Data: BStr(genText(r, 0))})
			}
			ins(bak)
		case 3: // the backup is another name of an edited file
			g := pick(r, c.Files)
			if !has(bak) && has(g) {
				c.Nodes = append(c.Nodes, Node{Path: bak, Kind: "hard", Target: g})
			}
		case 4: // the backup is a symbolic link to an edited file
			if !has(bak) {
				c.Nodes = append(c.Nodes, Node{Path: bak, Kind: "sym", Target: "/w/" + pick(r, c.Files)})
			}
		case 5: // two files whose backups are the same file
			g := pick(r, c.Files) + c.Edit.Backup
			if !has(bak) && !has(g) && g != bak {
				c.Nodes = append(c.Nodes, Node{Path: bak, Data: "shared\n"}, Node{Path: g, Kind: pick(r, []string{"hard", "sym"}), Target: "/w/" + bak})
				if c.Nodes[len(c.Nodes)-1].Kind == "hard" {
					c.Nodes[len(c.Nodes)-1].Target = bak
				}
			}
		case 6: // a second name of an edited file
			if !has("hl-"+path.Base(f)) && has(f) {
				c.Nodes = append(c.Nodes, Node{Path: "hl-" + path.Base(f), Kind: "hard", Target: f})
				ins("hl-" + path.Base(f))
			}
		}
	}
}

func evalC04(c *Case) *Viol {
	k := c.kernel(true)
	if c.Edit.Backup == "" {
		return nil
	}
	exps, _ := c.expectBatch(k)
	// a file may be named more than once: what counts is its content before the
	// first edit, and any of the backups of its names
	first := map[int]int{}
	baks := map[int][]string{}
	for i, x := range exps {
		if x.Ino == 0 {
			continue
		}
		if _, ok := first[x.Ino]; !ok {
			first[x.Ino] = i
		}
		baks[x.Ino] = append(baks[x.Ino], c.Files[i]+c.Edit.Backup)
	}
	var bad *Viol
	changed := make([]bool, len(exps))
	check := func(when string, ev *Event) {
		if bad != nil {
			return
		}
		for i, x := range exps {
			if x.Ino == 0 || first[x.Ino] != i {
				continue
			}
			_, curOK := k.Holds(c.Files[i], x.Before)
			bakOK := false
			for _, b := range baks[x.Ino] {
				if _, ok := k.Holds(b, x.Before); ok {
					bakOK = true
				}
			}
			if !curOK && !bakOK {
				cur, _ := k.Content(c.Files[i])
				bak, _ := k.Content(c.Files[i] + c.Edit.Backup)
				bad = viol("unrecoverable", "%s: the original content of %s is neither in it (%s) nor in its backup (%s)", when, c.Files[i], short(cur), short(bak)).with(k)
				return
			}
			if !changed[i] && (ev != nil && ev.Ino == x.Ino && ev.Mut || !curOK) {
				changed[i] = true
				if !bakOK {
					bak, _ := k.Content(c.Files[i] + c.Edit.Backup)
					bad = viol("changed-before-backup", "%s: %s is being changed while its backup holds %s instead of %s", when, c.Files[i], short(bak), short(x.Before)).with(k)
					return
				}
			}
		}
	}
	muts := 0
	k.OnMut = func(ev *Event) {
		if muts++; len(exps) < 40 || muts%16 == 0 {
			check("after "+ev.String(), ev)
		}
	}
	out := c.ex(k)
	st.note(out.Result, len(k.FaultFired) > 0)
	check("at the end", nil)
	if bad != nil {
		return bad
	}
	if out.Killed != "" {
		return nil
	}
	if v := out.sane(); v != nil {
		return v
	}
	vs, v := c.pair(out)
	if v != nil {
		return nil
	}
	for i, x := range exps {
		if vs[i].OK && x.Ino != 0 && first[x.Ino] == i {
			bak, ok := k.Content(c.Files[i] + c.Edit.Backup)
			if !ok || bak != x.Before {
				return viol("backup-wrong", "%s was reported edited but its backup holds %s, want %s", c.Files[i], short(bak), short(x.Before)).with(k)
			}
		}
	}
	return nil
}

// ---- C06

func genC06(r *RNG) []*Case {
	c := genBatch(r, batchOpt{maxFiles: 9, size: 1, failPct: 8, bad: 25, backup: 20})
	if c.Edit.Quiet && r.P(60) {
		c.Edit.Quiet = false
	}
	if len(c.Files) > 1 && r.P(15) { // the same file twice
		if c.Edit.Backup != "" {
			genAliases(r, c)
		} else {
			f := pick(r, c.Files)
			name := "2nd name"
			switch r.N(6) {
			case 0:
				c.Nodes = append(c.Nodes, Node{Path: name, Kind: "sym", Target: "/w/" + f})
			case 1:
				c.Nodes = append(c.Nodes, Node{Path: name, Kind: "hard", Target: f})
			case 2:
				name = "./" + f
			default:
				name = f
			}
			i := r.N(len(c.Files) + 1)
			c.Files = append(c.Files[:i:i], append([]string{name}, c.Files[i:]...)...)
		}
		if !c.distinct(c.kernel(false)) {
			return []*Case{c}
		}
	}
	if r.P(10) {
		genLinks(r, c)
	}
	return c.vary(r, 4, func(v *Case, b *Out) {
		if r.P(25) {
			return
		}
		f1 := k1(r, c)
		for i := r.In(1, 2); i > 0; i-- {
			if f, ok := faultFrom(r, b.K.Log, r.P(15), func(e *Event) bool {
				p := b.K.canon(f1)
				return e.Path == p || c.Edit.Backup != "" && e.Path == p+c.Edit.Backup
			}); ok {
				v.Faults = append(v.Faults, f)
			}
		}
	})
}

func k1(r *RNG, c *Case) string {
	if len(c.Files) == 0 {
		return ""
	}
	return pick(r, c.Files)
}

func evalC06(c *Case) *Viol {
	if c.Entry == "cli" && !c.Edit.InPlace {
		return nil // not a batch
	}
	k := c.kernel(true)
	exps, _ := c.expectBatch(k)
	chk := chkOnce | chkMustOK | chkExit
	if len(c.Faults) == 0 {
		chk |= chkExact | chkIntact
	} else if !c.distinct(k) {
		return nil
	}
	out := c.ex(k)
	st.note(out.Result, out.Failed || len(k.FaultFired) > 0)
	if v := out.sane(); v != nil {
		return v
	}
	if len(c.Faults) == 0 && !c.distinct(k) {
		// a file named twice: only the final content and the verdicts can be checked
		return c.judgeSeq(k, out, exps)
	}
	if v := c.judge(k, out, exps, chk); v != nil {
		return v
	}
	if len(c.Faults) > 0 {
		// the files no fault touched hold what the model says
		for i, x := range exps {
			if x.Ino == 0 || touched(k, x.Canon, c.Edit.Backup) || c.Edit.ViaFile && touched(k, scriptPath, "") {
				continue
			}
			if got, _ := k.Content(c.Files[i]); got != x.After && !x.Odd {
				return viol("others-affected", "%s holds %s, want %s, although only other files were disturbed", c.Files[i], short(got), short(x.After)).with(k)
			}
		}
	}
	return nil
}

func (c *Case) judgeSeq(k *Kernel, out *Out, exps []Exp) *Viol {
	for _, x := range exps {
		if x.Odd {
			return nil
		}
	}
	if !out.Answered {
		return viol("no-answer", "the request never came back (exit=%d)", out.Exit)
	}
	last := map[int]int{}
	for i, x := range exps {
		last[x.Ino] = i
	}
	fail := false
	var vs []*Verdict
	if out.Reported {
		var v *Viol
		if vs, v = c.pair(out); v != nil {
			return v.with(k)
		}
	}
	for i, x := range exps {
		if !x.OK {
			fail = true
		}
		if vs != nil && vs[i].OK != x.OK && c.Entry != "tool" && c.Entry != "mcp" {
			return viol("verdict", "%s (file %d): reported ok=%v, want %v (%s)", c.Files[i], i, vs[i].OK, x.OK, x.Why).with(k)
		}
		if x.Ino != 0 && last[x.Ino] == i {
			if got, _ := k.Content(c.Files[i]); got != x.After {
				return viol("content", "%s holds %s, want %s", c.Files[i], short(got), short(x.After)).with(k)
			}
		}
	}
	if fail != out.Failed {
		return viol("exit-status", "request failed=%v but some file failed=%v", out.Failed, fail).with(k)
	}
	return nil
}

// ---- C07

func genC07(r *RNG) []*Case {
	c := genBatch(r, batchOpt{maxFiles: 3, size: 1, failPct: 8, bad: 8, backup: 35, links: true})
	for i := r.N(3); i > 0; i-- {
		if len(c.Files) > 0 {
			f := pick(r, c.Files)
			c.Nodes = append(c.Nodes, Node{Path: f + pick(r, []string{".tmp", ".new", "~", ".swp", ".bak", "2"}), Data: "neighbour\n"})
		}
	}
	if !c.distinct(c.kernel(false)) {
		return nil
	}
	return c.vary(r, 4, func(v *Case, b *Out) {
		switch r.N(5) {
		case 0:
		case 1:
			v.Full, v.Room = true, r.N(4000)
		default:
			if f, ok := faultFrom(r, b.K.Log, r.P(30), nil); ok {
				if r.P(20) {
					f.Every = 2
				}
				v.Faults = append(v.Faults, f)
			}
		}
	})
}

func evalC07(c *Case) *Viol {
	k := c.kernel(true)
	if !c.distinct(k) {
		return nil
	}
	before := k.Snapshot()
	exps, _ := c.expectBatch(k)
	mayChange := map[int]bool{}
	for _, x := range exps {
		if x.Ino != 0 {
			mayChange[x.Ino] = true
		}
	}
	mayAppear := map[string]bool{}
	if c.Edit.Backup != "" {
		for _, f := range c.Files {
			b := f + c.Edit.Backup
			mayAppear[k.canon(b)] = true
			if n, e := k.walk(b, true, false); e == 0 {
				mayChange[n.ID] = true
			}
		}
	}
	out := c.ex(k)
	st.note(out.Result, true)
	if v := out.sane(); v != nil {
		return v
	}
	after := k.Snapshot()
	am := map[string]Entry{}
	for _, e := range after {
		am[e.Path] = e
	}
	for _, b := range before {
		a, ok := am[b.Path]
		if !ok {
			return viol("removed", "%s no longer exists", b.Path).with(k)
		}
		delete(am, b.Path)
		if a.Kind != b.Kind || a.Target != b.Target {
			return viol("identity", "%s was a %q and is now a %q", b.Path, b.Kind, a.Kind).with(k)
		}
		if a.Ino != b.Ino {
			return viol("identity", "%s is a different file now (inode %d, was %d): other links to it keep the old content", b.Path, a.Ino, b.Ino).with(k)
		}
		if a.Mode != b.Mode || a.UID != b.UID {
			return viol("identity", "%s: mode %o owner %d, was mode %o owner %d", b.Path, a.Mode, a.UID, b.Mode, b.UID).with(k)
		}
		if a.Nlink != b.Nlink {
			return viol("identity", "%s has %d links, had %d", b.Path, a.Nlink, b.Nlink).with(k)
		}
		if a.Data != b.Data && !mayChange[b.Ino] {
			return viol("other-file", "%s was not named but changed from %s to %s", b.Path, short(b.Data), short(a.Data)).with(k)
		}
	}
	for p := range am {
		if !mayAppear[p] {
			return viol("stray", "%s was left behind", p).with(k)
		}
	}
	return nil
}
