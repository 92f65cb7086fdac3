package main

// caseShape is what cutting a case down must not bring about: things no generator
// makes, on which the oracle has nothing to say.
type caseShape struct {
	raws                                                    map[string]bool
	syntax                                                  string
	emptyText, noFiles, emptyChunk, noReqFiles, noList, bad bool
}

func (c *Case) shape() (s caseShape) {
	s.raws = map[string]bool{}
	okSyn := func(x string) bool { return x == "shell" || x == "sexp" || x == "json" }
	script := func(x *Script, used bool) {
		if used && !okSyn(x.Syntax) {
			s.bad = true
		}
		for i := range x.Stmts {
			s.noList = s.noList || x.Stmts[i].K == "l" && len(x.Stmts[i].L) == 0
		}
		if x.Broken || x.Raw != "" {
			s.raws["b"+string(x.Raw)] = true
		}
	}
	req := func(q *Req) {
		used := q.T == "edit" || q.T == "eval"
		script(&q.Script, used)
		if q.T == "edit" && len(q.Files) == 0 {
			s.noReqFiles = true
		}
		if q.T == "raw" || q.Raw != "" {
			s.raws["r"+string(q.Raw)] = true
		}
	}
	script(&c.Script, false)
	s.syntax = c.Script.Syntax
	s.emptyText = c.Script.Text() == ""
	s.noFiles = len(c.Files) == 0
	for i := range c.Edit.Exprs {
		script(&c.Edit.Exprs[i], true)
		if c.Edit.Exprs[i].Text() == "" {
			s.emptyText = true
		}
	}
	for i := range c.Reqs {
		req(&c.Reqs[i])
		s.bad = s.bad || c.Reqs[i].Pre != c.Reqs[0].Pre
	}
	for i := range c.Callers {
		for j := range c.Callers[i].Reqs {
			req(&c.Callers[i].Reqs[j])
		}
	}
	for i := range c.Tests {
		t := &c.Tests[i]
		script(&t.Script, t.Raw == "" && !t.Missing)
		if t.Raw != "" {
			s.raws["t"+string(t.Raw)] = true
		}
	}
	for _, ch := range c.Stdin {
		s.emptyChunk = s.emptyChunk || ch == ""
	}
	for i := range c.Faults {
		if f := &c.Faults[i]; f.Kind == "errno" && f.Errno == 0 {
			s.bad = true
		}
	}
	if c.Peer != nil {
		p := c.Peer.shape()
		for k := range p.raws {
			s.raws[k] = true
		}
		s.syntax += "/" + p.syntax
		s.emptyText = s.emptyText || p.emptyText
		s.noFiles = s.noFiles || p.noFiles
		s.emptyChunk = s.emptyChunk || p.emptyChunk
		s.noReqFiles = s.noReqFiles || p.noReqFiles
		s.noList = s.noList || p.noList
		s.bad = s.bad || p.bad
	}
	return s
}

// within tells whether a case of shape s may stand for one of shape o.
func (s caseShape) within(o caseShape) bool {
	for k := range s.raws {
		if !o.raws[k] {
			return false
		}
	}
	return s.syntax == o.syntax && (!s.emptyText || o.emptyText) && (!s.noFiles || o.noFiles) && (!s.emptyChunk || o.emptyChunk) &&
		(!s.noReqFiles || o.noReqFiles) && (!s.noList || o.noList) && (!s.bad || o.bad)
}
