package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/dhamidi/texted/edlisp"
)

// ---- C29: requests that are over leave nothing behind in the process

func genC29(r *RNG) []*Case {
	c := genPlain(r, r.In(1, 3), 0)
	c.Kind, c.Entry, c.Lock = "rounds", pick(r, []string{"mcp", "mcp", "mcp", "lib", "tool"}), true
	c.O.RSeed = uint64(r.N(6))
	if r.N(36) == 0 {
		genHeap(r, c)
		return []*Case{c}
	}
	if r.P(20) {
		c.Nodes = append(c.Nodes, Node{Path: "dir", Kind: "dir"})
	}
	if c.Entry == "mcp" && r.P(70) {
		c.Pre = 1
		c.Reqs = append(c.Reqs, Req{T: "init", ID: "0"})
	}
	if c.Entry == "lib" && r.P(40) {
		genTests(r, c, 1, 10)
	}
	for i := r.In(1, 3); i > 0; i-- {
		id := len(c.Reqs) + 1
		if c.Entry == "mcp" && r.P(20) {
			c.Reqs = append(c.Reqs, genBadReq(r, id, nodeNames(c.Nodes)...))
			continue
		}
		q := genReq(r, id, c.Nodes, 30)
		if c.Entry == "lib" && q.T != "edit" {
			if len(c.Tests) > 0 && r.P(60) {
				q = Req{T: "test", Files: []string{c.Tests[0].Path}}
			} else {
				q.T, q.Files = "edit", []string{c.Nodes[0].Path}
			}
		}
		c.Reqs = append(c.Reqs, q)
	}
	if r.P(30) {
		c.O.SSeed = uint64(r.N(1 << 30))
		c.O.SwitchMean = pick(r, []int{5, 40, 300})
		c.O.SwitchSys = r.P(50)
	}
	if r.P(10) {
		c.O.Slow = pick(r, []int64{50, 5000, 300_000, 2_000_000})
	}
	if r.N(60) == 0 {
		c.Kind = "drip"
		c.O.SwitchMean, c.O.SwitchSys, c.O.Slow, c.O.Budget = 0, false, 0, 2_000_000_000
	}
	k := c.kernel(false)
	c.exRounds(k, 2, nil)
	out := []*Case{c}
	if c.Kind == "drip" {
		for i := range c.Reqs { // no file is to grow
			if c.Reqs[i].T == "edit" {
				for j := range c.Nodes {
					was, _ := NewKernel(c.Nodes).Content(c.Nodes[j].Path)
					if now, _ := k.Content(c.Nodes[j].Path); len(now) > len(was) {
						c.Kind = "rounds"
					}
				}
			}
		}
	}
	if c.Kind == "drip" {
		return out
	}
	for i := 0; i < 2; i++ {
		v := *c
		for j := r.In(1, 2); j > 0; j-- {
			if f, ok := faultFrom(r, k.Log, r.P(15), func(e *Event) bool { return !strings.HasPrefix(e.Path, "<") }); ok {
				f.Every = r.In(1, 2)
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(15) {
			v.Full, v.Room = true, r.N(50)
		}
		out = append(out, &v)
	}
	return out
}

// genHeap makes conversations with a lot of text in them, no two the same.
func genHeap(r *RNG, c *Case) {
	c.Kind = "heap"
	c.Entry = pick(r, []string{"mcp", "mcp", "tool"})
	n := r.In(12_000, 20_000)
	word := pick(r, []string{"zz", "value", "a"})
	st := pick(r, [][]X{
		{xc("point-max")},
		{xc("search-forward", xs("no such text"))},
		{xc("end-of-buffer"), xc("insert", xs(word)), xc("point")},
		{xc("search-forward", xs(" ")), xc("replace-match", xs(word)), xc("point")},
		{xc("re-search-forward", xs("[0-9]+ ")), xc("kill-word"), xc("point")},
		{xc("mark-whole-buffer"), xc("region-end")},
	})
	c.O.Budget = 2_000_000_000
	q := Req{T: "eval", ID: "7", Fill: n, Output: "expression", Script: Script{Syntax: "shell", Stmts: st}}
	if r.P(40) {
		q.T, q.Files, q.Fill = "edit", []string{c.Nodes[0].Path}, 0
		c.Nodes[0].Fill, c.Nodes[0].Mode = n, 0o644
	}
	if r.P(35) { // the script is what there is much of
		q.Fill, q.SFill = q.Fill/8, n
		f := xs("FILLFILL")
		q.Script.Stmts = pick(r, [][]X{
			{xc("insert", f), xc("point")},
			{xc("search-forward", f)},
			{xc("re-search-forward", f)},
			{xc("looking-at", f)},
			{xc("length", f)},
			{xc("goto-char", xn(3)), xc("re-search-backward", f)},
			{xc("string-match", f, xs("abc"))},
			{xc("FILLFILL", xi(1))}, // no such command
			{xc("insert", X{K: "y", S: "FILLFILL"})},
			{xc("point"), xc("upcase", f), xc("FILLFILL")},
		})
		if op := q.Script.Stmts[len(q.Script.Stmts)-1].L[0].S; op != "point" && op != "search-forward" && op != "length" && op != "FILLFILL" {
			q.SFill /= 6 // compiled, it is much larger
		}
		if q.T == "edit" {
			c.Nodes[0].Fill = 0
			if q.Script.Stmts[0].L[0].S == "insert" { // the file is not to grow
				q.Script.Stmts = []X{xc("looking-back", f)}
			}
		}
	}
	if r.P(20) {
		q = Req{T: "doc", ID: "7", Func: "no-such-", SFill: r.In(2_000, 6_000)}
		if r.P(30) {
			q.Func, q.Cat = "", "odd"
		}
		c.Nodes[0].Fill = 0
	}
	c.Reqs = []Req{q}
}

// exRounds performs the requests again and again and calls at between rounds,
// when everything has come to rest.
func (c *Case) exRounds(k *Kernel, rounds int, at func(round int)) *Out {
	mark := func(i int) {
		if i < c.Pre || (i-c.Pre)%(len(c.Reqs)-c.Pre) != 0 || at == nil || k.dead {
			return
		}
		cur.hold = true
		for j := 0; j < 150 && !k.dead; j++ {
			yieldIdle()
		}
		if !k.dead {
			at((i - c.Pre) / (len(c.Reqs) - c.Pre))
		}
		if cur != nil {
			cur.hold = false
		}
	}
	if len(c.Reqs) <= c.Pre {
		return &Out{Result: &Result{K: k}}
	}
	reqs := append([]Req(nil), c.Reqs[:c.Pre]...)
	for i := 0; i < rounds; i++ {
		for _, q := range c.Reqs[c.Pre:] {
			q.Round = i
			reqs = append(reqs, q)
		}
	}
	if c.Entry == "mcp" {
		cc := *c
		cc.Reqs = append(reqs, Req{T: "ping", ID: "999999"})
		s := cc.session()
		s.lock = true
		s.onSend = mark
		s.attach(k)
		return &Out{Result: Run(k, c.sessionOpts(), runMain(mcpArgs(c.Reqs...)))}
	}
	return &Out{Result: Run(k, c.sessionOpts(), func() {
		env := edlisp.NewDefaultEnvironment()
		for i := range reqs {
			mark(i)
			reqs[i].call(c.Entry, env)
		}
		mark(len(reqs))
	})}
}

func evalC29(c *Case) *Viol {
	if len(c.Reqs) <= c.Pre || len(c.Nodes) == 0 {
		return nil
	}
	k := c.kernel(true)
	switch c.Kind {
	case "heap":
		return c.judgeHeap(k)
	case "drip":
		return c.judgeDrip(k)
	}
	const rounds, from = 9, 3
	var n [rounds + 1]int
	out := c.exRounds(k, rounds, func(i int) { n[i] = runtime.NumGoroutine() })
	st.note(out.Result, true)
	if v := out.sane(); v != nil {
		return v
	}
	if grow := n[rounds-1] - n[from]; n[rounds-1] > 0 && n[from] > 0 && grow >= rounds-1-from {
		return viol("goroutines-pile-up", "the process has %d goroutines more after round %d of the same requests than after round %d (%v)", grow, rounds-1, from, n[:rounds]).with(k)
	}
	return nil
}

func (c *Case) judgeHeap(k *Kernel) *Viol {
	const rounds, from = 400, 140
	c.O.Budget = 2_000_000_000
	size := c.Reqs[0].Fill + c.Nodes[0].Fill + c.Reqs[0].SFill
	var at [2]int64
	var ms runtime.MemStats
	out := c.exRounds(k, rounds, func(i int) {
		if i == from || i == rounds-1 {
			runtime.GC()
			runtime.ReadMemStats(&ms)
			at[i/(rounds-1)] = int64(ms.HeapAlloc) - int64(2*cap(k.Stdout)) - int64(len(k.Log))*400
		}
	})
	st.note(out.Result, true)
	if v := out.sane(); v != nil {
		return v
	}
	if at[0] == 0 || at[1] == 0 || size < 1_500 {
		return nil
	}
	if grow := at[1] - at[0]; grow > int64(size)*(rounds-1-from)/2 {
		return viol("memory-piles-up", "the process keeps the texts of finished requests: %d such requests of %d bytes", rounds-1-from, size).
			with(k)
	}
	return nil
}

// judgeDrip looks for the little that each request leaves behind. What is
// suspicious is done again, longer, so that something that is made once is not
// taken for something that is made each time.
func (c *Case) judgeDrip(k *Kernel) *Viol {
	const least = 16
	c.O.Budget = 2_000_000_000
	from, to := 130, 500
	for try := 0; ; try++ {
		var at, held [2]int64
		var ms runtime.MemStats
		out := c.exRounds(k, to+1, func(i int) {
			if i == from || i == to {
				k.Log, k.Stdout, k.Stderr = nil, nil, nil
				k.stdin, k.stdinPos = append([]BStr(nil), k.stdin[k.stdinPos:]...), 0
				runtime.GC()
				runtime.GC()
				runtime.ReadMemStats(&ms)
				at[i/to] = int64(ms.HeapAlloc)
				for _, e := range k.Snapshot() {
					held[i/to] += int64(len(e.Path) + len(e.Data))
				}
			}
		})
		st.note(out.Result, true)
		if v := out.sane(); v != nil {
			return v
		}
		if at[0] == 0 || at[1] == 0 || held[0] != held[1] || at[1]-at[0] < int64(to-from)*least {
			return nil
		}
		if try == 2 {
			return viol("memory-drips", "each time the same requests are made again the process holds more: at least %d bytes a time, also after %d times", least, from).with(k)
		}
		from, to = to, to*2+130
		k = c.kernel(true)
	}
}

// filled is the text of a request that is filled up in a way of its own.
func (q *Req) filled() string {
	if q.Fill == 0 {
		return string(q.Input)
	}
	return fmt.Sprintf("%s round %d\n%s", string(q.Input), q.Round, filler(q.Fill))
}

// named is a name that is filled up likewise.
func (q *Req) named(s string) string {
	if q.SFill == 0 || s == "" {
		return s
	}
	w := fmt.Sprintf("round%dx", q.Round)
	return s + strings.Repeat(w, q.SFill/len(w))
}

// script is the text of its script, filled up likewise.
func (q *Req) script() string {
	if q.SFill == 0 {
		return q.Script.Text()
	}
	w := fmt.Sprintf("round%dx", q.Round)
	return strings.ReplaceAll(q.Script.Text(), "FILLFILL", strings.Repeat(w, q.SFill/len(w)))
}
