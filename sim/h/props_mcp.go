package main

import (
	"context"
	"fmt"
	"path"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
)

// Properties of the server and of looping edits: C11 to C15.

const initLine = `{"jsonrpc":"2.0","id":"init","method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"sim","version":"1"}}}`

// genSession makes a world and a conversation about it.
func genSession(r *RNG, maxReq, badPct, failPct int) *Case {
	nf, size := r.In(1, 3), 0
	if r.P(8) {
		nf = r.In(4, pick(r, []int{6, 10, 24}))
	} else if r.P(6) {
		size = 2
	}
	if r.P(3) {
		maxReq *= 5
	}
	if r.N(400) == 0 {
		maxReq = 400
	}
	c := genPlain(r, nf, size)
	for i := range c.Nodes {
		if r.P(50) {
			c.Nodes[i].Mode = 0
		}
	}
	if r.P(15) {
		c.Nodes = append(c.Nodes, Node{Path: "dir", Kind: "dir"})
	}
	c.Kind = "mcp"
	c.Lock = r.P(55)
	if r.P(70) {
		c.Reqs = append(c.Reqs, Req{T: "init", ID: "0"})
		if r.P(70) {
			c.Reqs = append(c.Reqs, Req{T: "note"})
		}
	}
	for i := r.In(1, maxReq); i > 0; i-- {
		id := len(c.Reqs) + 1
		if r.P(badPct) {
			c.Reqs = append(c.Reqs, genBadReq(r, id, nodeNames(c.Nodes)...))
		} else {
			c.Reqs = append(c.Reqs, genReq(r, id, c.Nodes, failPct))
		}
	}
	if r.P(35) {
		echoReqs(r, c)
	}
	if r.P(6) {
		pre := pick(r, []string{"my_", "a.b-", "texted_", "é/"})
		for i := range c.Reqs {
			c.Reqs[i].Pre = pre
		}
	}
	if r.P(25) {
		m := pick(r, []int{1, 5, 60, 800})
		for i := 0; i < 200; i++ {
			c.Cut = append(c.Cut, r.In(1, 2*m))
		}
	}
	c.O.RSeed = uint64(r.N(6))
	if r.P(6) {
		c.O.Slow = pick(r, []int64{50, 5000, 300_000, 2_000_000})
	}
	if r.P(30) {
		c.O.SSeed = uint64(r.N(1 << 30))
		c.O.SwitchMean = pick(r, []int{5, 40, 300})
		c.O.SwitchSys = r.P(50)
	}
	return c
}

// sessionOpts bounds a conversation: a healthy one takes a million statements.
func (c *Case) sessionOpts() Opts {
	o := c.O
	if o.Budget == 0 {
		o.Budget = 50_000_000
	}
	return o
}

// echoReqs makes later requests come back to earlier ones: the same again, or
// with one thing changed.
func echoReqs(r *RNG, c *Case) {
	for i := range c.Reqs {
		if i <= 1 || !r.P(35) {
			continue
		}
		j := r.N(i)
		id := c.Reqs[i].ID
		switch c.Reqs[j].T {
		case "init", "note", "raw":
			continue
		}
		q := c.Reqs[j]
		q.ID = id
		q.Files = append([]string(nil), q.Files...)
		for n := pick(r, []int{0, 1, 1, 2}); n > 0; n-- {
			switch r.N(7) {
			case 0, 1: // same length, other text
				q.Input = BStr(tweak(r, string(q.Input), 0))
			case 2:
				q.Input = BStr(tweak(r, string(q.Input), 1))
			case 3:
				if q.T == "doc" && q.Func != "" {
					q.Func = nearName(r, q.Func)
				}
				if q.T == "eval" {
					q.Output = pick(r, []string{"", "buffer", "expression"})
				}
			case 4:
				if len(q.Files) > 0 && len(c.Nodes) > 0 {
					q.Files[r.N(len(q.Files))] = pick(r, c.Nodes).Path
				}
			case 5:
				if len(q.Files) > 1 {
					q.Files[0], q.Files[1] = q.Files[1], q.Files[0]
				}
			case 6: // the same script with one letter of an argument changed
				if q.Script.Broken || len(q.Script.Stmts) == 0 {
					continue
				}
				st := append([]X(nil), q.Script.Stmts...)
				x := &st[r.N(len(st))]
				x.L = append([]X(nil), x.L...)
				for a := range x.L {
					if x.L[a].K == "s" {
						x.L[a].S = BStr(tweak(r, string(x.L[a].S), 0))
					}
				}
				q.Script.Stmts = st
			}
		}
		c.Reqs[i] = q
	}
}

// undoReqs adds edits of one file that take back earlier ones and make them
// again, the file being called by several names.
func undoReqs(r *RNG, c *Case) {
	var nd *Node
	for i := range c.Nodes {
		if n := &c.Nodes[i]; (n.Kind == "" || n.Kind == "file") && (nd == nil || r.P(50)) {
			nd = n
		}
	}
	if nd == nil {
		return
	}
	f := nd.Path
	names := []string{f}
	for r.P(60) {
		a := path.Join(path.Dir(f), pick(r, []string{"zz-", "aa-"})+path.Base(f))
		for i := range c.Nodes {
			if c.Nodes[i].Path == a {
				a = ""
			}
		}
		switch {
		case a == "" || r.P(40):
			names = append(names, "./"+f)
			continue
		case r.P(50):
			c.Nodes = append(c.Nodes, Node{Path: a, Kind: "hard", Target: f})
		default:
			c.Nodes = append(c.Nodes, Node{Path: a, Kind: "sym", Target: path.Base(f)})
		}
		names = append(names, a)
	}
	w := pick(r, []string{"zz", "new ", "é", "x"})
	do := []X{xc("goto-char", xi(1)), xc("insert", xs(w))}
	undo := []X{xc("goto-char", xi(1)), xc("delete-char", xi(utf8.RuneCountInString(w)))}
	var reqs []Req
	in := 0
	add := func(st []X) {
		q := Req{T: "edit", Files: []string{pick(r, names)}, Script: Script{Syntax: "sexp", Stmts: st}}
		if r.P(50) {
			q.Files[0] = names[0]
		}
		if len(c.Reqs) > 0 {
			q.Pre = c.Reqs[0].Pre
		}
		reqs = append(reqs, q)
	}
	for n := r.In(3, 6); n > 0; n-- {
		if in > 0 && r.P(70) {
			add(undo)
			in--
		} else {
			add(do)
			in++
		}
	}
	at := r.In(min(2, len(c.Reqs)), len(c.Reqs))
	rest := append([]Req(nil), c.Reqs[at:]...)
	c.Reqs = c.Reqs[:at:at]
	for len(reqs) > 0 {
		if len(rest) > 0 && r.P(25) {
			c.Reqs, rest = append(c.Reqs, rest[0]), rest[1:]
			continue
		}
		reqs[0].ID = fmt.Sprint(1000 + len(c.Reqs))
		c.Reqs, reqs = append(c.Reqs, reqs[0]), reqs[1:]
	}
	c.Reqs = append(c.Reqs, rest...)
}

// longTwins makes long scripts and texts of several requests that differ in one
// place only.
func longTwins(r *RNG, c *Case) {
	n := pick(r, []int{8, 24, 40, 100, 400})
	if r.P(4) {
		n = 2500
	}
	n = min(n, 1+12000/(1+len(c.Reqs)))
	where := pick(r, []int{0, n / 2, n, n, n})
	fill := pick(r, []string{"point", "mark", "beginning-of-buffer", "point-max"})
	var pad []X
	for i := 0; i < n; i++ {
		pad = append(pad, X{K: "l", L: []X{xy(fill)}})
	}
	text := strings.Repeat(pick(r, []string{"x", "line\n", "ab cd "}), n)
	scripts, texts := r.P(80), r.P(40)
	for i := range c.Reqs {
		q := &c.Reqs[i]
		if q.T != "eval" && q.T != "edit" || q.Script.Broken || r.P(25) {
			continue
		}
		if q.Loop = q.Loop && n < 100; scripts {
			st := append([]X(nil), pad[:where]...)
			op, letter := "insert", xs(string(rune('a'+r.N(26))))
			if r.P(30) {
				op = "concat"
			}
			st = append(st, X{K: "l", L: []X{xy(op), letter}})
			q.Script = Script{Syntax: "shell", Sep: 1, Stmts: append(st, pad[where:]...)}
			if r.P(30) {
				q.Output = "expression"
			} else if q.Output == "nonsense" {
				q.Output = ""
			}
		}
		if texts && q.T == "eval" {
			q.Input = BStr(text[:where] + string(rune('a'+r.N(26))) + text[where:])
		}
	}
}

// extReqs lets other programs change the files between requests.
func extReqs(r *RNG, c *Case) {
	for i := range c.Reqs {
		q := &c.Reqs[i]
		if q.T != "edit" || len(q.Files) == 0 || !r.P(45) {
			continue
		}
		q.Ext = nil
		for n := r.In(1, 2); n > 0; n-- {
			nd := Node{Path: pick(r, q.Files), Mode: 0o644}
			old := ""
			for _, x := range c.Nodes {
				if x.Path == nd.Path {
					old = string(x.Data)
				}
			}
			switch r.N(8) {
			case 0:
				nd.Kind = "rm"
			case 1:
				nd.Kind, nd.Mode = "chmod", pick(r, []uint32{0o444, 0o600, 0})
			case 2, 3:
				nd.Kind = "swap"
				nd.Data = BStr(genText(r, 0))
			case 4:
				nd.Data = BStr(genText(r, 0))
			default: // the same length
				nd.Data = BStr(tweak(r, old, 0))
				if r.P(30) {
					nd.Kind = "swap"
				}
			}
			q.Ext = append(q.Ext, nd)
		}
	}
}

func nodeNames(ns []Node) (l []string) {
	for _, n := range ns {
		if n.Kind == "" {
			l = append(l, n.Path)
		}
	}
	return
}

// tweak changes a letter of the text, or its length.
func tweak(r *RNG, s string, how int) string {
	var at []int
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' && s[i] <= 'z' {
			at = append(at, i)
		}
	}
	if how == 0 && len(at) > 0 {
		i := pick(r, at)
		return s[:i] + string('a'+(s[i]-'a'+byte(r.In(1, 25)))%26) + s[i+1:]
	}
	if r.P(50) && len(s) > 0 && utf8.ValidString(s[1:]) {
		return s[1:]
	}
	return s + pick(r, []string{"a", "\n", " ", "xyz"})
}

// ---- C11

func genC11(r *RNG) []*Case {
	c := genSession(r, 12, 35, 25)
	c.NoTail = r.P(8)
	var k *Kernel
	k = c.kernel(false)
	c.exAny(k)
	var out []*Case
	for i := 0; i < 3; i++ {
		v := *c
		v.Faults = nil
		for j := r.N(4); j > 0; j-- {
			if f, ok := faultFrom(r, k.Log, r.P(15), func(e *Event) bool { return !strings.HasPrefix(e.Path, "<") }); ok {
				if r.P(20) {
					f.Every = 1
				}
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(25) {
			if f, ok := faultFrom(r, k.Log, true, func(e *Event) bool { return strings.HasPrefix(e.Path, "<") }); ok {
				f.Every = r.In(2, 4)
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(15) {
			v.Full, v.Room = true, r.N(500)
		}
		out = append(out, &v)
	}
	return out
}

func evalC11(c *Case) *Viol {
	k := c.kernel(true)
	s := c.session()
	s.attach(k)
	res := Run(k, c.sessionOpts(), runMain(mcpArgs(c.Reqs...)))
	s.parse(k)
	st.note(res, true)
	if len(k.Unsupported) > 0 {
		return res.sane()
	}
	if res.Panic != "" {
		return res.sane()
	}
	if s.breach != "" {
		return viol("protocol", "%s", s.breach).with(k)
	}
	ai := 0
	for i := range c.Reqs {
		q := &c.Reqs[i]
		_, want := q.line()
		if !want {
			continue
		}
		last := c.NoTail && i == len(c.Reqs)-1
		if ai >= len(s.answers) {
			if last {
				break
			}
			return viol("missing-answer", "request %d (%s id=%s) was never answered; %d answers came (ends: exit=%d stuck=%v)", i, q.T, q.ID, len(s.answers), res.Exit, res.Stuck).with(k)
		}
		a := s.answers[ai]
		ai++
		if q.T == "raw" && q.Want == "error" {
			if !a.Error {
				return viol("no-error", "message %d %s is malformed but was answered without an error: %s", i, short(string(q.Raw)), short(a.Raw)).with(k)
			}
			continue
		}
		if a.ID != q.ID {
			return viol("identity", "answer %d has id %s, want %s (request %d, %s): %s", ai-1, a.ID, q.ID, i, q.T, short(a.Raw)).with(k)
		}
		switch {
		case q.T == "raw" && q.Want == "errid" && !a.Error && !a.IsErr:
			return viol("no-error", "bad request %d %s was answered without an error: %s", i, short(string(q.Raw)), short(a.Raw)).with(k)
		case q.T != "raw" && a.Error:
			return viol("protocol-error", "well-formed request %d (%s) got a protocol error: %s", i, q.T, short(a.Raw)).with(k)
		case q.T == "eval" && !a.IsErr:
			if (q.Script.Broken || q.Output == "nonsense") && utf8.ValidString(string(q.Input)) {
				return viol("no-error", "request %d evaluates a broken script but got a result: %s", i, short(a.Raw)).with(k)
			}
		case q.T == "edit" && !a.IsErr && q.Script.Broken && strings.Contains(a.Text, markOK):
			return viol("no-error", "request %d edits with a broken script but reports success: %s", i, short(a.Raw)).with(k)
		}
	}
	if ai < len(s.answers) {
		return viol("extra-answer", "%d answers for %d requests; the extra one: %s", len(s.answers), ai, short(s.answers[ai].Raw)).with(k)
	}
	if v := res.sane(); v != nil {
		return v
	}
	if res.Exit != 0 {
		return viol("exit", "the server ended with status %d after its input ended normally (stderr %s)", res.Exit, short(string(k.Stderr))).with(k)
	}
	return nil
}

// ---- C12

func genC12(r *RNG) []*Case {
	c := genSession(r, 14, 15, 20)
	c.Lock = true
	echoReqs(r, c)
	if r.P(12) {
		longTwins(r, c)
	}
	if r.P(12) {
		undoReqs(r, c)
	}
	if r.P(40) {
		extReqs(r, c)
	}
	c.At = r.N(1 << 20) // which requests are repeated in a fresh server
	return []*Case{c}
}

// world is the model's view of the disk: what a request does to it.
type world struct {
	k      *Kernel
	passes int // of the last edit applied
}

func (w *world) apply(q *Req) (exps []Exp) {
	x := &Case{Entry: "mcp", Files: q.Files, Script: q.Script}
	for w.passes = 1; ; w.passes++ {
		var cont map[int]string
		exps, cont = x.expectBatch(w.k)
		done := !q.Loop || w.passes > 5000
		for _, e := range exps {
			done = done || !e.OK || e.Odd
			if e.Ino != 0 {
				if n := findIno(w.k, e.Ino); n != nil && n.Kind == 'f' {
					n.Data = []byte(cont[e.Ino])
				}
			}
		}
		if done || len(exps) == 0 {
			return exps
		}
	}
}

func evalModel(q *Req) (text string, isErr, odd bool) {
	o := q.Script.Apply(string(q.Input))
	if o.Odd {
		return "", false, true
	}
	if !o.OK || q.Output != "" && q.Output != "buffer" && q.Output != "expression" {
		return "", true, false
	}
	if q.Output == "expression" {
		return o.Val.SexpVal(), false, false
	}
	return o.Text, false, false
}

// scriptTrips tells whether JSON transport leaves the request as it is.
func (q *Req) trips() bool {
	return utf8.ValidString(q.Script.Text()) && utf8.ValidString(string(q.Input))
}

func evalC12(c *Case) *Viol {
	k := c.kernel(true)
	s := c.session()
	s.lock = true
	s.notail = false
	snaps, before := make([][]Node, len(c.Reqs)+1), make([][]Node, len(c.Reqs)+1)
	s.onSend = func(i int) {
		before[i] = k.Nodes()
		for j := range c.Reqs[i].Ext {
			k.external(&c.Reqs[i].Ext[j])
		}
		snaps[i] = before[i]
		if len(c.Reqs[i].Ext) > 0 {
			snaps[i] = k.Nodes()
		}
	}
	s.attach(k)
	res := Run(k, c.sessionOpts(), runMain(mcpArgs(c.Reqs...)))
	s.parse(k)
	st.note(res, len(c.Reqs) > 2)
	if v := res.sane(); v != nil {
		return v
	}
	before[len(c.Reqs)] = k.Nodes()
	if s.breach != "" {
		return viol("protocol", "%s", s.breach).with(k)
	}
	ans := make([]*Answer, len(c.Reqs))
	ai := 0
	for i := range c.Reqs {
		if _, want := c.Reqs[i].line(); want {
			if ai < len(s.answers) {
				ans[i] = &s.answers[ai]
			}
			ai++
		}
	}
	if ai != len(s.answers) {
		return viol("answers", "%d answers for %d requests", len(s.answers), ai).with(k)
	}
	replays := 0
	pickR := NewRNG(uint64(c.At))
	for i := range c.Reqs {
		q := &c.Reqs[i]
		a := ans[i]
		if a == nil || snaps[i] == nil || !q.trips() {
			continue
		}
		odd := false
		w := &world{k: NewKernel(snaps[i])}
		switch q.T {
		case "edit":
			exps := w.apply(q)
			o := &Out{Result: res}
			o.toolAnswer(a.Text, a.IsErr)
			fail := false
			cc := &Case{Entry: "mcp", Files: q.Files}
			for _, x := range exps {
				odd = odd || x.Odd
				fail = fail || !x.OK
			}
			if odd {
				break
			}
			if len(q.Files) > 0 && !a.IsErr {
				vs, v := cc.pair(o)
				if v != nil {
					v.Msg = fmt.Sprintf("request %d: %s", i, v.Msg)
					return v.with(k)
				}
				named := map[string]bool{}
				for j, x := range exps {
					if !named[q.Files[j]] && !repeats(q.Files, q.Files[j]) && vs[j].OK != x.OK {
						return viol("answer", "request %d: %s reported ok=%v (%q), want %v (%s)", i, q.Files[j], vs[j].OK, vs[j].Line, x.OK, x.Why).with(k)
					}
					named[q.Files[j]] = true
				}
			}
			if q.Loop && len(q.Files) > 0 && !a.IsErr && o.Iter != w.passes {
				return viol("answer", "request %d: %d passes reported, want %d: %s", i, o.Iter, w.passes, short(a.Text)).with(k)
			}
			if o.Failed != fail {
				return viol("answer", "request %d: reported failed=%v, want %v: %s", i, o.Failed, fail, short(a.Text)).with(k)
			}
		case "eval":
			text, isErr, od := evalModel(q)
			odd = od
			if od {
				break
			}
			if a.IsErr != isErr {
				return viol("answer", "request %d: evaluation failed=%v, want %v: %s", i, a.IsErr, isErr, short(a.Text)).with(k)
			}
			if !isErr && a.Text != jsonTrip(text) {
				return viol("answer", "request %d: evaluation gave %s, want %s", i, short(a.Text), short(jsonTrip(text))).with(k)
			}
		}
		// effects on the disk
		next := NewKernel(before[i+1])
		if d := diffTree(w.k.Snapshot(), next.Snapshot(), ""); d != "" && !odd {
			if q.T == "raw" && q.Want == "any" {
				continue
			}
			return viol("effect", "request %d (%s %v): afterwards the disk is not as its arguments and the files before say: %s", i, q.T, q.Files, d).with(k)
		}
		// the same request to a fresh server on the same files
		if q.T != "init" && q.T != "note" && replays < 3 && pickR.P(40) {
			replays++
			fk := NewKernel(snaps[i])
			fs := &Session{lock: true}
			line, _ := q.line()
			fs.add(line, true)
			fs.attach(fk)
			fr := Run(fk, Opts{RSeed: c.O.RSeed + 1}, runMain(mcpArgs(*q)))
			fs.parse(fk)
			if v := fr.sane(); v != nil {
				return v
			}
			if len(fs.answers) != 1 {
				return viol("fresh", "request %d alone in a fresh server gets %d answers", i, len(fs.answers)).with(fk)
			}
			if fs.answers[0].Raw != a.Raw {
				return viol("history-dependent", "request %d is answered %s in this session but %s by a fresh server on the same files", i, short(a.Raw), short(fs.answers[0].Raw)).with(k)
			}
			if d := diffTree(NewKernel(fk.Nodes()).Snapshot(), next.Snapshot(), ""); d != "" {
				return viol("history-dependent", "request %d leaves other files than a fresh server does: %s", i, d).with(k)
			}
		}
	}
	return nil
}

func repeats(fs []string, f string) bool {
	n := 0
	for _, g := range fs {
		if g == f {
			n++
		}
	}
	return n > 1
}

// ---- C13

func genC13(r *RNG) []*Case {
	c := genSession(r, 9, 8, 12)
	if r.P(25) {
		undoReqs(r, c)
	}
	for i := range c.Nodes {
		c.Nodes[i].Mode = 0
	}
	return c.vary(r, 5, func(v *Case, b *Out) {
		if r.P(80) {
			v.Kill = genKill(r, b.K, b.Steps)
		}
		if r.P(20) {
			if f, ok := faultFrom(r, b.K.Log, true, nil); ok {
				f.Every = r.In(2, 4)
				v.Faults = append(v.Faults, f)
			}
		}
	})
}

func evalC13(c *Case) *Viol {
	k := c.kernel(true)
	for i := range c.Reqs {
		if !c.Reqs[i].trips() {
			return nil
		}
	}
	// the model's disk after each answered request
	w := &world{k: NewKernel(c.Nodes)}
	paths := []string{}
	for _, n := range c.Nodes {
		if n.Kind == "" || n.Kind == "file" {
			paths = append(paths, n.Path)
		}
	}
	var states []map[string]string // after n answers
	var touch [][]string           // files of the request that gets answer n
	snap := func() map[string]string {
		m := map[string]string{}
		for _, p := range paths {
			m[p], _ = w.k.Content(p)
		}
		return m
	}
	states = append(states, snap())
	sentAns := []int{} // request index -> answers due before it
	for i := range c.Reqs {
		q := &c.Reqs[i]
		sentAns = append(sentAns, len(states)-1)
		_, want := q.line()
		if !want {
			continue
		}
		var fs []string
		if q.T == "edit" {
			fs = q.Files
			for _, x := range w.apply(q) {
				if x.Odd {
					return nil
				}
			}
		}
		touch = append(touch, fs)
		states = append(states, snap())
	}
	s := c.session()
	s.notail = false
	sent := len(c.Reqs)
	if s.lock {
		sent = 0
		s.onSend = func(i int) { sent = i + 1 }
	}
	s.attach(k)
	var bad *Viol
	check := func(when string, exact bool) {
		if bad != nil {
			return
		}
		n := strings.Count(string(k.Stdout), "\n")
		if n >= len(states) {
			return
		}
		for _, p := range paths {
			got, _ := k.Content(p)
			if got == states[n][p] {
				continue
			}
			busy := false
			if n < len(touch) {
				for _, f := range touch[n] {
					busy = busy || k.same(f, p)
				}
			}
			reqNo := 0
			for i, a := range sentAns {
				if _, want := c.Reqs[i].line(); want && a == n {
					reqNo = i
				}
			}
			if busy && sent <= reqNo {
				busy = false // that request has not been sent yet
			}
			if busy && !exact {
				continue
			}
			kind := "ack-not-on-disk"
			if got != states[max(0, n-1)][p] {
				kind = "unrequested-effect"
			}
			bad = viol(kind, "%s: after %d answers %s holds %s, want %s", when, n, p, short(got), short(states[n][p])).with(k)
			return
		}
	}
	inner := k.onOut
	lines := 0
	k.onOut = func() {
		if inner != nil {
			inner()
		}
		if n := strings.Count(string(k.Stdout), "\n"); n > lines {
			lines = n
			check("when the answer was emitted", c.Lock)
		}
	}
	res := Run(k, c.sessionOpts(), runMain(mcpArgs(c.Reqs...)))
	st.note(res, res.Killed != "")
	if bad != nil {
		return bad
	}
	if len(k.Unsupported) > 0 {
		return res.sane()
	}
	if res.Killed == "" {
		if v := res.sane(); v != nil {
			return v
		}
		check("at the end", true)
	} else {
		check(res.Killed, false)
	}
	return bad
}

// ---- C14

// genLoop makes a looping edit that ends by itself.
func genLoop(r *RNG) *Case {
	c := &Case{Entry: pick(r, []string{"tool", "tool", "mcp"}), Loop: true}
	tok := pick(r, []string{"foo", "KEY", "x", "todo"})
	stmts := loopStmts(r, tok)
	c.Script = Script{Syntax: pick(r, []string{"shell", "sexp"}), Sep: r.N(100), Stmts: stmts}
	if r.P(5) {
		c.Script = genScriptIn(r, "", genOpt{}, 100, c.Script)
	}
	n := 1
	if r.P(60) {
		n = r.In(2, 4)
	}
	many := 0
	if r.N(35) == 0 {
		many = pick(r, []int{105, 140, 260, 520, 1030})
	}
	for j, f := range pickNames(r, n) {
		var sb strings.Builder
		i := r.In(0, 9)
		if many > 0 {
			i = many * 3 / 2
			if j > 0 && r.P(80) {
				i *= 2
			}
		}
		for ; i > 0; i-- {
			sb.WriteString(pick(r, []string{tok, tok, "7 ", "word", "line " + tok}))
			sb.WriteString(pick(r, []string{"\n", " ", "\n"}))
		}
		nd := Node{Path: f, Data: BStr(sb.String())}
		c.Files = append(c.Files, f)
		if r.P(3) {
			nd.Mode = 0o444
		}
		if !r.P(3) {
			c.Nodes = append(c.Nodes, nd)
		}
	}
	c.O.RSeed = uint64(r.N(3))
	return c
}

// loopStmts makes a program that fails after some rounds: each consumes a tok.
func loopStmts(r *RNG, tok string) (stmts []X) {
	switch r.N(6) {
	case 0:
		stmts = []X{xc("search-forward", xs(tok)), xc("replace-match", xs("<done>"))}
	case 1:
		stmts = []X{xc("search-forward", xs(tok)), xc("replace-match", xs("")), xc("end-of-buffer"), xc("insert", xs("+"))}
	case 2:
		stmts = []X{xc("end-of-buffer"), xc("search-backward", xs(tok)), xc("replace-match", xs("-"))}
	case 3:
		stmts = []X{xc("insert", xs("#")), xc("re-search-forward", xs("^"+tok)), xc("replace-match", xs("0"))}
	case 4:
		stmts = []X{xc("search-forward", xs(tok)), xc("beginning-of-line"), xc("delete-line")}
	case 5:
		stmts = []X{xc("re-search-forward", xs("[0-9]+")), xc("replace-match", xs("N"))}
	}
	return stmts
}

// ends tells whether a looping edit surely fails at some pass.
func (q *Req) ends() bool {
	if q.Script.Broken {
		return true
	}
	need, re := "", false
	for _, x := range q.Script.Stmts {
		if x.K != "l" || len(x.L) == 0 {
			return false
		}
		arg := ""
		if len(x.L) > 1 {
			arg = string(x.L[1].S)
		}
		switch f := string(x.L[0].S); f {
		case "search-forward", "search-backward":
			need = arg
		case "re-search-forward":
			need, re = arg, true
		case "delete-line":
			return need != ""
		case "replace-match":
			if re {
				return need == "[0-9]+" && arg == "N" || strings.HasPrefix(need, "^") && len(need) > 1 && arg == "0" && !strings.ContainsAny(need[1:], "0123456789[]()*?|^$+.\\")
			}
			return need != "" && !strings.Contains(arg, need)
		}
	}
	return false
}

// passes runs the model until a pass fails: the contents after each whole
// pass, and the last pass's verdicts.
func (c *Case) passes(k *Kernel, maxPass int) (states []map[string]string, last []Exp, ok bool) {
	m := *c
	w := NewKernel(k.Nodes())
	snap := func() map[string]string {
		s := map[string]string{}
		for _, f := range c.Files {
			s[f], _ = w.Content(f)
		}
		return s
	}
	states = append(states, snap())
	for i := 0; i < maxPass; i++ {
		exps, cont := m.expectBatch(w)
		fail := false
		for _, x := range exps {
			if x.Odd {
				return nil, nil, false
			}
			fail = fail || !x.OK
			if x.Ino != 0 {
				if n := findIno(w, x.Ino); n != nil && n.Kind == 'f' {
					n.Data = []byte(cont[x.Ino])
				}
			}
		}
		states = append(states, snap())
		if fail || !c.Loop {
			return states, exps, true
		}
	}
	return states, nil, false
}

// endlessStmts makes a program that no pass of which ever fails.
func endlessStmts(r *RNG) []X {
	turn := []X{xc("end-of-buffer"), xc("insert", xc("buffer-substring", xi(1), xi(2))), xc("goto-char", xi(1)), xc("delete-char", xi(1))}
	switch r.N(8) {
	case 0: // grows
		return []X{xc("insert", xs(pick(r, []string{"x", "line\n"})))}
	case 1: // reaches a state and stays there
		return []X{xc("mark-whole-buffer"), xc("replace-region", xs("same\n"))}
	case 2: // changes nothing
		return []X{xc(pick(r, []string{"point", "buffer-size", "end-of-buffer"}))}
	case 3: // changes nothing after all
		return []X{xc("insert", xs("ab")), xc("delete-backward-char", xi(2))}
	case 4: // grows at both ends
		return []X{xc("end-of-buffer"), xc("insert", xs("]")), xc("goto-char", xi(1)), xc("insert", xs("["))}
	case 5:
		return append(turn[:4:4], turn...)
	}
	return turn // comes back to earlier states
}

func genEndless(r *RNG) *Case {
	c := &Case{Entry: "tool", Loop: true, Mode: "endless"}
	c.Script = Script{Syntax: pick(r, []string{"shell", "sexp"}), Sep: r.N(100), Stmts: endlessStmts(r)}
	for _, f := range pickNames(r, r.In(1, 3)) {
		c.Files = append(c.Files, f)
		c.Nodes = append(c.Nodes, Node{Path: f, Data: BStr(pick(r, []string{"ab", "ab\n", "aab", "x", "one two\n", "same\n", genLine(r) + "."}))})
	}
	c.At = r.In(30, 400)
	if r.N(12) == 0 {
		c.At = r.In(1000, 12000)
	}
	c.O.RSeed = uint64(r.N(3))
	c.O.Slow = pick(r, []int64{0, 0, 1000, 100_000, 1_000_000})
	return c
}

// evalEndless cancels a looping edit that has no reason to end before.
func evalEndless(c *Case) *Viol {
	k := c.kernel(true)
	if c.At < 1 || len(c.Files) == 0 || !c.Loop {
		return nil
	}
	for _, f := range c.Files {
		t, ok := k.Content(f)
		seen := map[string]bool{}
		for i := 0; i < 6 && !seen[t]; i++ {
			seen[t] = true
			o := c.Script.Apply(t)
			if !ok || !o.OK || o.Odd {
				return nil
			}
			t = o.Text
		}
	}
	ctx := &simCtx{done: make(chan struct{})}
	n := 0
	k.OnSys = func(*Event) {
		if n++; n == c.At {
			ctx.err = context.Canceled
			close(ctx.done)
			k.FaultFired["cancel"]++
		}
	}
	out := &Out{}
	var res *mcp.CallToolResult
	out.Result = Run(k, c.O, func() { res, _ = tools.EditFileHandler(ctx, editRequest(c.Files, c.Script.Text(), true)) })
	st.note(out.Result, true)
	if v := out.sane(); v != nil {
		return v
	}
	if ctx.err == nil {
		return viol("ended-early", "the looping edit ended after %d calls although no pass of it can fail: %+v", n, res).with(k)
	}
	return nil
}

func genC14(r *RNG) []*Case {
	if r.P(12) {
		return []*Case{genEndless(r)}
	}
	c := genLoop(r)
	c.Loop = !r.P(8)
	if len(c.Nodes) > 0 && r.P(12) { // a file under two names
		f := pick(r, c.Nodes).Path
		name := "2nd"
		switch r.N(3) {
		case 0:
			c.Nodes = append(c.Nodes, Node{Path: name, Kind: "sym", Target: "/w/" + f})
		case 1:
			c.Nodes = append(c.Nodes, Node{Path: name, Kind: "hard", Target: f})
		case 2:
			name = "./" + f
		}
		i := r.N(len(c.Files) + 1)
		c.Files = append(c.Files[:i:i], append([]string{name}, c.Files[i:]...)...)
	}
	if states, _, ok := c.passes(c.kernel(false), 2000); !ok || len(states) > 90 && r.P(50) {
		return nil
	}
	return c.vary(r, 4, func(v *Case, b *Out) {
		if r.P(25) {
			return
		}
		if f, ok := faultFrom(r, b.K.Log, r.P(15), onFiles(b.K, c)); ok {
			v.Faults = []Fault{f}
		}
	})
}

func evalC14(c *Case) *Viol {
	if c.Mode == "endless" {
		return evalEndless(c)
	}
	k := c.kernel(true)
	alias := !c.distinct(k) // then only passes without faults are judged
	states, last, ok := c.passes(k, 2500)
	if !ok {
		return nil
	}
	n := len(states) - 1 // the pass that fails on a healthy machine
	cc := *c
	cc.O.Budget = 60_000_000
	out := cc.ex(k)
	st.note(out.Result, len(k.FaultFired) > 0 || n > 2)
	if v := out.sane(); v != nil {
		return v
	}
	if alias && errorFault(k) {
		return nil
	}
	if !out.Answered || out.IsErr {
		return viol("no-answer", "the looping edit gave no verdicts: %s", short(out.Text)).with(k)
	}
	vs, v := c.pair(out)
	if v != nil {
		return v.with(k)
	}
	if c.Loop && !out.Failed {
		return viol("verdict", "a looping edit ends with a failed pass but reports success: %s", short(out.Text)).with(k)
	}
	faulty := errorFault(k)
	if out.Iter < 1 || out.Iter > n || !faulty && out.Iter != n {
		return viol("pass-count", "%d passes reported, want %d", out.Iter, n).with(k)
	}
	some := false
	for i, f := range c.Files {
		got, exists := k.Content(f)
		x := last[i]
		if x.Ino == 0 {
			exists = false
		}
		want := states[out.Iter-1][f]
		shouldOK := x.OK || out.Iter < n
		if x.Ino == 0 {
			shouldOK = false
		}
		if vs[i].OK || alias {
			want = states[out.Iter][f]
		}
		if !vs[i].OK {
			some = true
		}
		if vs[i].OK && !shouldOK {
			return viol("failure-as-success", "%s reported edited in pass %d although %s", f, out.Iter, x.Why).with(k)
		}
		if !vs[i].OK && shouldOK && !touched(k, k.canon(f), "") {
			return viol("spurious-failure", "%s reported failed in pass %d (%q) although nothing is wrong with it", f, out.Iter, vs[i].Line).with(k)
		}
		if exists && got != want {
			return viol("passes", "%d passes reported, %s %s, but it holds %s, want %s", out.Iter, f, map[bool]string{true: "succeeded in the last", false: "failed in the last"}[vs[i].OK], short(got), short(want)).with(k)
		}
	}
	if some != out.Failed {
		return viol("verdict", "the final pass has a failed file: %v; reported failed: %v", some, out.Failed).with(k)
	}
	return nil
}

// ---- C15

// simCtx is a context the simulator cancels at a chosen instant.
type simCtx struct {
	done chan struct{}
	err  error
	by   time.Time
}

func (s *simCtx) Deadline() (time.Time, bool) { return s.by, !s.by.IsZero() }
func (s *simCtx) Done() <-chan struct{}       { return s.done }
func (s *simCtx) Err() error                  { return s.err }
func (s *simCtx) Value(any) any               { return nil }

func genC15(r *RNG) []*Case {
	c := &Case{Entry: pick(r, []string{"tool", "tool", "mcp"}), Loop: true}
	grow := true
	var stmts []X
	switch r.N(5) {
	case 0:
		stmts = []X{xc("insert", xs("x"))}
	case 1:
		stmts = []X{xc("end-of-buffer"), xc("insert", xs("line\n"))}
	case 2:
		stmts = []X{xc("point")}
		grow = false
	case 3:
		stmts = []X{xc("mark-whole-buffer"), xc("replace-region", xs("same\n"))}
		grow = false
	case 4:
		stmts = []X{xc("end-of-buffer"), xc("insert", xs("ab")), xc("beginning-of-buffer"), xc("insert", xs("[")), xc("end-of-buffer"), xc("insert", xs("]"))}
	}
	_ = grow
	c.Script = Script{Syntax: "shell", Stmts: stmts, Sep: r.N(50)}
	n := r.In(1, 4)
	for _, f := range pickNames(r, n) {
		c.Files = append(c.Files, f)
		t := genLine(r) + "\n"
		if r.P(15) {
			t = sized(r, r.In(500, 9000))
		}
		c.Nodes = append(c.Nodes, Node{Path: f, Data: BStr(t)})
	}
	var out []*Case
	for i := 0; i < 4; i++ {
		v := *c
		v.O.RSeed = uint64(r.N(3))
		switch r.N(4) {
		case 0:
			v.At = r.N(8)
		case 1:
			v.At = r.N(60)
		case 2:
			v.At = r.N(400)
		case 3:
			v.At = -1
			v.O.SigStep = 1 + int64(r.N(pick(r, []int{40, 600, 8000, 30000})))
		}
		if v.At >= 0 {
			v.O.SigSys = 0
			if v.Entry == "mcp" {
				v.O.SigSys = 4 + v.At
			}
		}
		v.O.SigInt = v.Entry == "mcp" && r.P(30)
		v.Mode = pick(r, []string{"cancel", "deadline"})
		if r.P(20) {
			v.O.SSeed = uint64(r.N(1 << 30))
			v.O.SwitchMean = pick(r, []int{20, 300})
		}
		out = append(out, &v)
	}
	return out
}

func evalC15(c *Case) *Viol {
	k := c.kernel(true)
	orig := map[string]string{}
	for _, f := range c.Files {
		orig[f], _ = k.Content(f)
	}
	ctx := &simCtx{done: make(chan struct{})}
	if c.Mode == "deadline" {
		ctx.by = time.Unix(4_000_000_000, 0)
	}
	at := -1 // log length when cancelled
	cancel := func() {
		if at < 0 {
			at = len(k.Log)
			ctx.err = context.Canceled
			if c.Mode == "deadline" {
				ctx.err = context.DeadlineExceeded
			}
			close(ctx.done)
			k.FaultFired["cancel"]++
		}
	}
	cc := *c
	cc.O.Budget = 4_000_000
	var out *Out
	if c.Entry == "mcp" {
		k.onSig = func() {
			if at < 0 {
				at = len(k.Log)
			}
		}
		out = cc.ex(k)
	} else {
		k.onSig, k.sigCall = cancel, true
		if c.At >= 0 {
			n := 0
			if c.At == 0 {
				cancel()
			}
			k.OnSys = func(*Event) {
				if n++; n == c.At {
					cancel()
				}
			}
		}
		out = &Out{}
		var res *mcp.CallToolResult
		var err error
		out.Result = Run(k, cc.O, func() { res, err = tools.EditFileHandler(ctx, editRequest(c.Files, c.Script.Text(), true)) })
		_, _ = res, err
	}
	st.note(out.Result, at >= 0)
	if len(k.Unsupported) > 0 || out.Panic != "" || out.Stuck {
		return out.sane()
	}
	if at < 0 {
		return nil // the run ended before the cancellation
	}
	if out.Budget {
		return viol("not-stopped", "the looping edit went on for ever after it was cancelled at call %d", at).with(k)
	}
	// How often one edit that does not loop opens a file tells how many edits
	// the openings after the cancellation can be.
	one := c.kernel(true)
	oc := *c
	oc.O = Opts{}
	Run(one, oc.O, func() { tools.EditFileHandler(context.Background(), editRequest(c.Files, c.Script.Text(), false)) })
	opens := func(k *Kernel, path string, from int) (n int) {
		for i := from; i < len(k.Log); i++ {
			if k.Log[i].Op == "open" && k.Log[i].Path == path {
				n++
			}
		}
		return
	}
	for _, f := range c.Files {
		p := k.canon(f)
		per := max(1, opens(one, p, 0))
		if n := opens(k, p, at); n > 2*per {
			return viol("not-stopped", "%s was opened %d more times after the cancellation; one edit opens it %d times", f, n, per).with(k)
		}
		passes := opens(k, p, 0)
		got, _ := k.Content(f)
		cur := orig[f]
		ok := false
		for j := 0; j <= passes+1; j++ {
			if cur == got {
				ok = true
				break
			}
			o := c.Script.Apply(cur)
			if !o.OK || o.Odd {
				return nil
			}
			if o.Text == cur && j > 0 {
				break
			}
			cur = o.Text
		}
		if !ok {
			return viol("partial-edit", "after the cancellation %s holds %s, which no whole number of edits makes of %s", f, short(got), short(orig[f])).with(k)
		}
	}
	return nil
}
