package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// ---- C30: a server that is told to stop stops, and cleanly

func genC30(r *RNG) []*Case {
	c := genSession(r, 7, 8, 12)
	for i := range c.Nodes {
		c.Nodes[i].Mode = 0
	}
	c.NoTail = false
	return c.vary(r, 5, func(v *Case, b *Out) {
		v.Open = r.P(60)
		v.O.SigInt = r.P(40)
		switch r.N(10) {
		case 0, 1: // when all has been said (or, if the client hangs up, not at all)
		case 2, 3, 4:
			v.O.SigSys = 1 + r.N(max(1, len(b.K.Log)+3))
		default:
			v.O.SigStep = 1 + int64(r.N(int(b.Steps)+10))
			if r.P(30) {
				v.O.SigStep = 1 + int64(r.N(2000))
			}
		}
		if r.P(15) {
			if f, ok := faultFrom(r, b.K.Log, true, nil); ok {
				f.Every = r.In(2, 4)
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(30) {
			v.O.SSeed = uint64(r.N(1 << 30))
			v.O.SwitchMean = pick(r, []int{5, 40, 300})
			v.O.SwitchSys = r.P(50)
		}
	})
}

func evalC30(c *Case) *Viol {
	k := c.kernel(true)
	for i := range c.Reqs {
		if !c.Reqs[i].trips() {
			return nil
		}
	}
	w := &world{k: NewKernel(c.Nodes)}
	var paths []string
	for _, n := range c.Nodes {
		if n.Kind == "" || n.Kind == "file" {
			paths = append(paths, n.Path)
		}
	}
	var states []map[string]string // after n answers
	var due []*Req                 // the request that gets answer n
	snap := func() {
		m := map[string]string{}
		for _, p := range paths {
			m[p], _ = w.k.Content(p)
		}
		states = append(states, m)
	}
	snap()
	for i := range c.Reqs {
		q := &c.Reqs[i]
		if _, want := q.line(); !want {
			continue
		}
		if q.T == "edit" {
			for _, x := range w.apply(q) {
				if x.Odd {
					return nil
				}
			}
		}
		due = append(due, q)
		snap()
	}
	names := func(k *Kernel) string {
		var l []string
		for _, e := range k.Snapshot() {
			l = append(l, e.Path)
		}
		return strings.Join(l, "\n")
	}
	before := names(k)
	s := c.session()
	s.open = c.Open
	s.attach(k)
	told, steps := -1, int64(0) // lines out when the signal came
	k.onSig = func() { told, steps = strings.Count(string(k.Stdout), "\n"), k.steps() }
	res := Run(k, c.sessionOpts(), runMain(mcpArgs(c.Reqs...)))
	st.note(res, told >= 0)
	if len(k.Unsupported) > 0 {
		return nil
	}
	when := "after the client closed its end"
	if told >= 0 {
		when = fmt.Sprintf("after the signal at step %d (%d lines out)", steps, told)
	}
	switch {
	case res.Budget || res.Stuck:
		return viol("not-stopped", "%s the server goes on for ever", when).with(k)
	case res.Panic != "":
		return res.sane()
	}
	if told >= 0 && res.Killed != "" {
		for i := range k.Log {
			if k.Log[i].Path == "<stdin>" {
				return viol("killed", "%s the server, which was taking requests, died of it at once", when).with(k)
			}
		}
	}
	// whole lines only
	lines := strings.Split(string(k.Stdout), "\n")
	if tail := lines[len(lines)-1]; tail != "" {
		return viol("torn-line", "%s the server ended within a line: %s", when, short(tail)).with(k)
	}
	lines = lines[:len(lines)-1]
	for i, l := range lines {
		if !json.Valid([]byte(l)) {
			return viol("not-json", "%s line %d is %s", when, i, short(l)).with(k)
		}
	}
	s.parse(k)
	n := len(s.answers)
	if told >= 0 && n > told && n > 0 && s.answers[n-1].ID == "null" && s.answers[n-1].Error {
		n-- // what the library says when it is called away from reading
	}
	if n > len(due) {
		return viol("surplus", "%s: %d answers, %d were due", when, n, len(due)).with(k)
	}
	if told >= 0 && n > told+3 {
		return viol("goes-on", "%s the server answered %d more requests", when, n-told).with(k)
	}
	// every file whole: what the answers say, or for the request at hand what it makes
	for _, p := range paths {
		got, _ := k.Content(p)
		if got == states[n][p] {
			continue
		}
		mine := func(i int) bool {
			if i < 0 || i >= len(due) || due[i].T != "edit" {
				return false
			}
			for _, f := range due[i].Files {
				if k.canon(f) == k.canon(p) {
					return true
				}
			}
			return false
		}
		if mine(n) && (got == states[n+1][p] || due[n].Loop) {
			continue
		}
		if told >= 0 && n > told && mine(n-1) && (due[n-1].Loop || got == states[n-1][p] && (s.answers[n-1].Error || s.answers[n-1].IsErr)) {
			continue // given up, and said so
		}
		return viol("file", "%s and %d answers %s holds %s, want %s", when, n, p, short(got), short(states[n][p])).with(k)
	}
	if after := names(k); after != before && res.Killed == "" {
		return viol("debris", "%s the tree is\n%s\nwas\n%s", when, after, before).with(k)
	}
	if told < 0 && res.Killed == "" && n < len(due) && len(c.Faults) == 0 {
		return viol("cut-short", "the client closed its end after %d requests, %d were answered", len(due), n).with(k)
	}
	return nil
}
