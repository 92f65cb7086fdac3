package main

import (
	"strings"
)

// ---- C27: evaluation prints exactly the values

func genC27(r *RNG) []*Case {
	c := &Case{Entry: "cli", Kind: "expr"}
	size := 1
	if r.P(15) {
		size = 2
	}
	text := genText(r, size)
	c.Edit.Style = r.N(60)
	c.Edit.Verbose = r.P(10)
	c.Edit.Quiet = r.P(6)
	c.Edit.OutFmt = pick(r, []string{"", "shell", "sexp", "json", "json"})
	if r.P(2) {
		c.Edit.OutFmt = "xml"
	}
	if r.P(30) {
		c.Stdin = chunks(r, text, r.In(1, len(text)+1))
	} else {
		for i, f := range pickNames(r, r.In(1, 4)) {
			c.Files = append(c.Files, f)
			nd := Node{Path: f, Data: BStr(text)}
			switch r.N(9) {
			case 0, 1:
				nd.Data = BStr(genText(r, size))
			case 2:
				nd.Data += BStr("tail\n")
			case 3:
				if i > 0 && r.P(40) {
					continue // missing
				}
			}
			if r.P(3) {
				nd.Mode = 0o200
			}
			c.Nodes = append(c.Nodes, nd)
		}
		if r.P(10) && len(c.Files) > 1 {
			c.Files = append(c.Files, pick(r, c.Files))
		}
	}
	syn := pick(r, []string{"shell", "shell", "sexp", "json"})
	b := NewMBuf(text)
	for i := r.In(1, 4); i > 0; i-- {
		s := genScriptIn(r, b.T, genOpt{}, 6, Script{Syntax: syn, Sep: r.N(100)})
		if s.Text() == "" || syn != "json" && strings.Contains(s.Text(), "\r") {
			continue
		}
		for _, x := range s.Stmts {
			if _, err := b.Eval(x); err != nil {
				break
			}
		}
		if b.Odd {
			b.Odd = false
			continue
		}
		c.Edit.Exprs = append(c.Edit.Exprs, s)
	}
	if len(c.Edit.Exprs) == 0 {
		c.Edit.Exprs = []Script{{Syntax: syn, Stmts: []X{xc("point-max")}}}
	}
	if r.P(25) { // the same asked again, after some moving about
		ask := Script{Syntax: syn, Stmts: []X{xc(pick(r, []string{"point", "current-column", "line-number-at-pos", "buffer-size", "point"}))}}
		if r.P(30) {
			ask = Script{Syntax: syn, Stmts: []X{pick(r, []X{xc("looking-at", xs(pick(r, regexes[:8]))), xc("buffer-substring", xi(1), xc("point"))})}}
		}
		move := Script{Syntax: syn, Stmts: []X{pick(r, []X{xc("forward-char", xi(1)), xc("forward-word", xi(1)), xc("end-of-line"), xc("end-of-buffer"), xc("goto-char", xi(2)), xc("insert", xs("z"))})}}
		c.Edit.Exprs = append(c.Edit.Exprs, ask, move, ask)
		if r.P(50) {
			c.Edit.Exprs = append(c.Edit.Exprs, move, ask)
		}
		if r.P(40) { // and at once
			if r.P(60) {
				ask = Script{Syntax: syn, Stmts: []X{pick(r, []X{xc("concat", xs(tweak(r, "a value of some length, ", 0)), xs(strings.Repeat("long", r.In(1, 40)))), xc("buffer-substring", xi(1), xc("point-max")), xc("length", xs("abc"))})}}
			}
			for n := r.In(2, 3); n > 0; n-- {
				c.Edit.Exprs = append(c.Edit.Exprs, ask)
			}
		}
		if r.P(30) {
			c.Edit.Exprs = append(c.Edit.Exprs, c.Edit.Exprs[0])
		}
	}
	for i := range c.Edit.Exprs {
		if strings.Contains(c.Edit.Exprs[i].Text(), "\n") {
			c.Edit.Verbose = false // its notes repeat the expressions
		}
	}
	if r.N(300) == 0 { // positions of more than a few digits
		c.bigify(r)
		c.Edit.Exprs = append(c.Edit.Exprs, pick(r, []Script{{Syntax: syn, Stmts: []X{xc("point-max")}}, {Syntax: syn, Stmts: []X{xc("end-of-buffer"), xc("point")}}, {Syntax: syn, Stmts: []X{xc("buffer-size")}}}))
	}
	return c.vary(r, 4, func(v *Case, b *Out) {
		for i := r.N(3); i > 0; i-- {
			if f, ok := faultFrom(r, b.K.Log, r.P(60), nil); ok {
				if f.Kind == "intr" && r.P(30) || f.Kind == "short" && r.P(50) {
					f.Every = r.In(2, 4)
				}
				v.Faults = append(v.Faults, f)
			}
		}
		if r.P(20) {
			v.OutMax = r.In(1, 300)
		}
		if n := len(b.K.Stdout); n > 0 && r.P(10) {
			v.OutFail, v.OutLimit, v.OutErr = true, r.N(n), 5
		}
	})
}

// evalInputs lists what an evaluation reads: name, content, readable.
func (c *Case) evalInputs(k *Kernel) (names, texts []string, ok []bool) {
	if len(c.Files) == 0 {
		return []string{"stdin"}, []string{c.stdinText()}, []bool{true}
	}
	for _, f := range c.Files {
		n, e := k.walk(f, true, true)
		t, good := "", e == 0 && n.Kind == 'f' && perm(n, 4)
		if good {
			t = string(n.Data)
		}
		names, texts, ok = append(names, f), append(texts, t), append(ok, good)
	}
	return
}

// evalLines is what an undisturbed evaluation prints, blank lines left out,
// and whether it succeeds.
func (c *Case) evalLines(k *Kernel) (lines []string, good, odd bool) {
	names, texts, readable := c.evalInputs(k)
	for i := range names {
		if !readable[i] {
			return lines, false, false
		}
		if len(names) > 1 {
			lines = append(lines, "=== "+names[i]+" ===")
		}
		b := NewMBuf(texts[i])
		for j := range c.Edit.Exprs {
			s := &c.Edit.Exprs[j]
			if s.Broken {
				return lines, false, false
			}
			v := mEmpty
			for _, x := range s.Stmts {
				var err error
				v, err = b.Eval(x)
				if b.Odd || len(b.T) > maxText {
					return nil, false, true
				}
				if err != nil {
					return lines, false, false
				}
			}
			switch c.Edit.OutFmt {
			case "", "shell", "sexp":
				lines = append(lines, v.SexpVal())
			case "json":
				lines = append(lines, strings.TrimSuffix(v.JSONVal(), "\n"))
			default:
				return lines, false, false
			}
		}
	}
	return lines, true, false
}

func evalC27(c *Case) *Viol {
	k := c.kernel(true)
	lines, good, odd := c.evalLines(k)
	if odd || len(c.Edit.Exprs) == 0 || c.Script.Stmts != nil {
		return nil
	}
	for i := range c.Edit.Exprs {
		if c.Edit.Exprs[i].Text() == "" {
			return nil
		}
		for _, x := range c.Edit.Exprs[i].Stmts {
			if x.K != "l" && c.Edit.Exprs[i].Syntax == "json" {
				return nil // not a script in that syntax
			}
		}
		if c.Edit.Verbose && strings.Contains(c.Edit.Exprs[i].Text(), "\n") {
			return nil
		}
	}
	out := c.ex(k)
	st.note(out.Result, len(k.FaultFired) > 0)
	if v := out.sane(); v != nil {
		return v
	}
	var want, got []string
	if c.Edit.Quiet && c.Edit.OutFmt == "xml" {
		return nil // nothing is to be printed, in whatever format
	}
	for _, l := range lines {
		if l != "" && !c.Edit.Quiet {
			want = append(want, l)
		}
	}
	raw := string(k.Stdout)
	for _, l := range strings.Split(raw, "\n") {
		if l == "" || c.Edit.Verbose && strings.HasPrefix(l, "Evaluating expression ") {
			continue
		}
		got = append(got, l)
	}
	if out.Exit == 0 {
		if !good {
			return viol("failure-as-success", "an expression or input fails but the exit status is 0; printed %s", short(raw)).with(k)
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			// a progress note that broke off may have lost its line end
			if c.Edit.Verbose && errorFault(k) {
				return nil
			}
			return viol("wrong-values", "printed %s, want %s", short(strings.Join(got, "\n")), short(strings.Join(want, "\n"))).with(k)
		}
		return nil
	}
	if good && !errorFault(k) {
		return viol("spurious-failure", "the evaluation failed (exit %d, %s) although nothing disturbed it", out.Exit, short(string(k.Stderr))).with(k)
	}
	for _, e := range k.Log {
		if e.Path == "<stdout>" && e.Fault != "" && e.Fault != "EINTR" && e.Fault != "short" {
			return nil // a piece of the output may be missing
		}
	}
	if c.Edit.Verbose {
		return nil
	}
	for i, l := range got {
		if i < len(want) && l == want[i] {
			continue
		}
		last := i == len(got)-1
		if strings.HasPrefix(l, "Error") || last && strings.HasPrefix("Error", l) {
			for _, m := range got[i+1:] {
				for j, f := range c.Files {
					if j > 0 && m == "=== "+f+" ===" || strings.HasPrefix(m, "Error ") && strings.HasPrefix(l, "Error ") {
						return viol("goes-on", "the evaluation goes on behind %s with %s", short(l), short(m)).with(k)
					}
				}
			}
			return nil
		}
		if last && !strings.HasSuffix(raw, "\n") && i < len(want) && strings.HasPrefix(want[i], l) {
			return nil
		}
		w := "nothing"
		if i < len(want) {
			w = short(want[i])
		}
		return viol("wrong-values", "line %d of the failed evaluation is %s, want %s", i+1, short(l), w).with(k)
	}
	return nil
}
