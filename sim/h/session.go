package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"
)

// A client conversation with the server: what is sent, in which pieces, and
// what comes back.

// Req is one message of a session.
type Req struct {
	T      string   `json:"t"` // edit eval doc ping list init note raw
	ID     string   `json:"id,omitempty"`
	Files  []string `json:"files,omitempty"`
	Script Script   `json:"script"`
	Loop   bool     `json:"loop,omitempty"`
	Input  BStr     `json:"input,omitempty"`
	Output string   `json:"output,omitempty"`
	Func   string   `json:"func,omitempty"`
	Cat    string   `json:"cat,omitempty"`
	Verb   bool     `json:"verb,omitempty"`
	Raw    BStr     `json:"raw,omitempty"`
	Pre    string   `json:"pre,omitempty"`   // what the tool names start with
	Ext    []Node   `json:"ext,omitempty"`   // what others do to the disk just before it is sent
	Fill   int      `json:"fill,omitempty"`  // input: followed by this many generated bytes
	SFill  int      `json:"sfill,omitempty"` // FILLFILL in the script stands for so many bytes
	Round  int      `json:"-"`
	Want   string   `json:"want,omitempty"` // for raw: none, error (any id), errid (this id), any
}

type sline struct {
	text string
	want bool // a response must come
}

// Answer is one response of the server.
type Answer struct {
	ID    string // JSON text of the id
	Error bool   // protocol-level error
	IsErr bool   // tool-level error
	Text  string
	Raw   string
	At    int // events in the kernel log when it was complete
}

type Session struct {
	lines   []sline
	lock    bool
	notail  bool // last line unterminated
	cut     []int
	sent    int
	due     int
	answers []Answer
	breach  string
	k       *Kernel
	onSend  func(i int)
	ends    []int // log length when the n-th output line was complete
	hold    func(i int) bool
	open    bool // the client goes on listening: when all is said and read, the process is told to stop
}

func (s *Session) add(text string, want bool) { s.lines = append(s.lines, sline{text, want}) }

func callLine(id any, tool string, args map[string]any) string {
	b, err := json.Marshal(map[string]any{"jsonrpc": "2.0", "id": id, "method": "tools/call", "params": map[string]any{"name": tool, "arguments": args}})
	if err != nil {
		panic(err)
	}
	return string(b)
}

// attach connects the client to the machine's standard streams.
func (s *Session) attach(k *Kernel) {
	s.k = k
	lines := 0
	seen := 0
	count := func() {
		if seen > len(k.Stdout) { // it was taken away
			seen, s.ends = 0, nil
		}
		for ; seen < len(k.Stdout); seen++ {
			if k.Stdout[seen] == '\n' {
				lines++
				s.ends = append(s.ends, len(k.Log))
			}
		}
	}
	k.onOut = count
	if !s.lock {
		var sb strings.Builder
		for i, l := range s.lines {
			sb.WriteString(l.text)
			if i < len(s.lines)-1 || !s.notail {
				sb.WriteByte('\n')
			}
		}
		all := sb.String()
		for _, n := range s.cut {
			if n <= 0 || n >= len(all) {
				continue
			}
			k.stdin = append(k.stdin, BStr(all[:n]))
			all = all[n:]
		}
		if all != "" {
			k.stdin = append(k.stdin, BStr(all))
		}
		if s.open {
			k.stdinPull = func() (BStr, bool) { k.raise(); return "", true }
		}
		return
	}
	ci := 0
	rest := ""
	k.stdinPull = func() (BStr, bool) {
		count()
		if rest == "" {
			if lines < s.due {
				return "", true // wait for the answer
			}
			if s.sent >= len(s.lines) {
				if s.open {
					k.raise()
				}
				return "", s.open
			}
			l := s.lines[s.sent]
			if s.onSend != nil {
				s.onSend(s.sent)
			}
			s.sent++
			if l.want {
				s.due++
			}
			rest = l.text + "\n"
			if s.notail && s.sent == len(s.lines) {
				rest = l.text
				if l.want {
					s.due--
				}
			}
		}
		n := len(rest)
		if len(s.cut) > 0 {
			if m := s.cut[ci%len(s.cut)]; m > 0 && m < n {
				n = m
			}
			ci++
		}
		c := rest[:n]
		rest = rest[n:]
		return BStr(c), true
	}
}

// parse reads everything the server has written.
func (s *Session) parse(k *Kernel) {
	s.answers = nil
	out := string(k.Stdout)
	for i := 0; out != ""; i++ {
		nl := strings.IndexByte(out, '\n')
		if nl < 0 {
			s.breach = fmt.Sprintf("output ends with an incomplete line %s", short(out))
			return
		}
		line := out[:nl]
		out = out[nl+1:]
		a := Answer{Raw: line}
		if i < len(s.ends) {
			a.At = s.ends[i]
		}
		var m map[string]json.RawMessage
		if err := json.Unmarshal([]byte(line), &m); err != nil {
			s.breach = fmt.Sprintf("output line %d is not a JSON object: %s", i, short(line))
			return
		}
		if string(m["jsonrpc"]) != `"2.0"` {
			s.breach = fmt.Sprintf("output line %d is not JSON-RPC 2.0: %s", i, short(line))
			return
		}
		if _, ok := m["method"]; ok {
			continue // a notification by the server
		}
		a.ID = string(m["id"])
		_, hasErr := m["error"]
		res, hasRes := m["result"]
		if hasErr == hasRes {
			s.breach = fmt.Sprintf("response %d has error=%v and result=%v", i, hasErr, hasRes)
			return
		}
		a.Error = hasErr
		if hasRes {
			var r struct {
				Content []struct {
					Type string `json:"type"`
					Text string `json:"text"`
				} `json:"content"`
				IsError bool `json:"isError"`
			}
			json.Unmarshal(res, &r)
			for _, c := range r.Content {
				a.Text += c.Text
			}
			a.IsErr = r.IsError
		}
		s.answers = append(s.answers, a)
	}
}

// jsonTrip is what a string looks like after a trip through JSON.
func jsonTrip(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	b, _ := json.Marshal(s)
	var t string
	json.Unmarshal(b, &t)
	return t
}

func (q *Req) id() any {
	if q.ID == "" {
		return nil
	}
	return json.RawMessage(q.ID)
}

// line renders the message; want says whether a response is due.
func (q *Req) line() (string, bool) {
	switch q.T {
	case "edit":
		return callLine(q.id(), q.Pre+"edit_file", map[string]any{"script": q.script(), "files": q.Files, "loopUntilError": q.Loop}), true
	case "eval":
		m := map[string]any{"input": q.filled(), "script": q.script()}
		if q.Output != "" {
			m["output"] = q.Output
		}
		return callLine(q.id(), q.Pre+"texted_eval", m), true
	case "doc":
		m := map[string]any{}
		if q.Func != "" {
			m["function_name"] = q.named(q.Func)
		}
		if q.Cat != "" {
			m["category"] = q.named(q.Cat)
		}
		if q.Verb {
			m["verbose"] = true
		}
		return callLine(q.id(), q.Pre+"texted_doc", m), true
	case "ping":
		return `{"jsonrpc":"2.0","id":` + q.ID + `,"method":"ping"}`, true
	case "list":
		return `{"jsonrpc":"2.0","id":` + q.ID + `,"method":"tools/list"}`, true
	case "init":
		return `{"jsonrpc":"2.0","id":` + q.ID + `,"method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"sim","version":"1"}}}`, true
	case "note":
		return `{"jsonrpc":"2.0","method":"notifications/initialized"}`, false
	}
	return string(q.Raw), q.Want != "none"
}

// mcpArgs is the command line of a server for the requests.
func mcpArgs(qs ...Req) []string {
	for i := range qs {
		if qs[i].Pre != "" {
			return []string{"texted", "mcp", "--prefix", qs[i].Pre}
		}
	}
	return []string{"texted", "mcp"}
}

func (c *Case) session() *Session {
	s := &Session{lock: c.Lock, cut: c.Cut, notail: c.NoTail}
	for i := range c.Reqs {
		c.Reqs[i].Loop = c.Reqs[i].Loop && c.Reqs[i].ends()
		l, w := c.Reqs[i].line()
		s.add(l, w)
	}
	return s
}

var docFuncs = []string{"insert", "search-forward", "replace-match", "kill-line", "nope", "search", "delete", "point"}
var docCats = []string{"search", "editing", "buffer", "movement", "nope", "string"}

// genReq makes a well-formed tool request on the given files.
func genReq(r *RNG, id int, nodes []Node, failPct int) Req {
	q := Req{ID: fmt.Sprint(id)}
	if r.P(25) {
		q.ID = fmt.Sprintf("%q", fmt.Sprintf("id-%d", id))
	}
	switch c := r.N(100); {
	case c < 45:
		q.T = "edit"
		n := 1
		if r.P(35) {
			n = r.In(2, 4)
		}
		if len(nodes) > 3 && r.P(40) { // most of the files there are, each once
			for _, nd := range nodes {
				if !r.P(10) {
					q.Files = append(q.Files, nd.Path)
				}
			}
			n = 0
			if len(q.Files) == 0 {
				n = 1
			}
		}
		for i := 0; i < n; i++ {
			if len(nodes) > 0 && !r.P(8) {
				q.Files = append(q.Files, pick(r, nodes).Path)
			} else {
				q.Files = append(q.Files, "missing.txt")
			}
		}
		t := ""
		for _, nd := range nodes {
			if nd.Path == q.Files[0] {
				t = string(nd.Data)
			}
		}
		q.Script = genScriptIn(r, t, genOpt{}, failPct, Script{Syntax: pick(r, []string{"shell", "sexp"}), Sep: r.N(100)})
		if r.P(12) {
			tok := "x"
			if fs := strings.Fields(t); len(fs) > 0 {
				tok = pick(r, fs)
				if len(tok) > 6 {
					tok = tok[:6]
				}
			}
			many := 0
			for _, nd := range nodes {
				many += strings.Count(string(nd.Data), tok)
			}
			if many < 40 && plainTok(tok) {
				q.Loop, q.Script = true, Script{Syntax: "shell", Sep: r.N(100), Stmts: loopStmts(r, tok)}
			}
		}
	case c < 80:
		q.T = "eval"
		t := genText(r, 0)
		if !utf8.ValidString(t) {
			t = genLine(r)
		}
		q.Input = BStr(t)
		q.Output = pick(r, []string{"", "buffer", "expression", "expression"})
		if r.P(4) {
			q.Output = "nonsense"
		}
		q.Script = genScriptIn(r, t, genOpt{}, failPct, Script{Syntax: pick(r, []string{"shell", "sexp"}), Sep: r.N(100)})
	case c < 92:
		q.T = "doc"
		switch r.N(4) {
		case 0:
			q.Func = pick(r, docFuncs)
		case 1:
			q.Cat = pick(r, docCats)
			q.Verb = r.P(50)
		case 2:
			q.Verb = r.P(50)
		case 3:
			q.Func = pick(r, docFuncs)
			if r.P(30) {
				q.Cat = "search"
			}
		}
		if q.Func != "" && r.P(40) {
			q.Func = nearName(r, q.Func)
		}
	case c < 96:
		q.T = "ping"
	default:
		q.T = "list"
	}
	return q
}

// nearName is a name that may be mistaken for another one.
func nearName(r *RNG, f string) string {
	switch r.N(6) {
	case 0:
		return f + pick(r, []string{"s", "-x", " ", "2"})
	case 1:
		return pick(r, []string{"x-", "no-", " "}) + f
	case 2:
		return strings.ToUpper(f)
	case 3:
		return f[:len(f)/2]
	case 4:
		return f[len(f)/2:]
	}
	return strings.ReplaceAll(f, "-", "_")
}

func plainTok(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i] | 32; c < 'a' || c > 'z' {
			return false
		}
	}
	return true
}

// oddNames makes a request to edit files one of which has a name no file can
// have, or one that is easily taken for another.
func oddNames(r *RNG, id int, names []string) Req {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	var l []string
	for i := r.In(0, 2); i > 0; i-- {
		l = append(l, q("none/"+pick(r, names)))
	}
	i := r.N(len(l) + 1)
	l = append(l[:i:i], append([]string{q(pick(r, []string{"", "", " ", ".", "..", "/", "sub/", "//", "\x00", "a\x00b", "\n", strings.Repeat("x", 300), strings.Repeat("d/", 3000), "~", "*", "-", "none/"}))}, l[i:]...)...)
	return Req{T: "raw", ID: fmt.Sprint(id), Want: "any", Raw: BStr(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":"edit_file","arguments":{"script":"insert ZZ","files":[%s]}}}`, id, strings.Join(l, ",")))}
}

// badEdit makes a request to edit that is not one and has to be refused as a whole,
// however much of it makes sense.
func badEdit(r *RNG, id int, names []string) Req {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	odd := pick(r, []string{"5", "null", "true", "{}", `["x"]`, "1.5", `{"path":"x"}`})
	var l []string
	for i := r.In(1, 3); i > 0; i-- {
		l = append(l, q(pick(r, names)))
	}
	files := "[" + strings.Join(l, ",") + "]"
	script := q(pick(r, []string{"insert ZZ", `insert "ZZ"; goto-char 2; insert "Y"`, "delete-region 1 3", "goto-char 2; delete-char 1", "erase-buffer", "end-of-buffer; insert Q"}))
	tool, args := "edit_file", ""
	switch r.N(8) {
	case 0, 1, 2: // a list of files not all of which are names
		i := r.N(len(l) + 1)
		l = append(l[:i:i], append([]string{odd}, l[i:]...)...)
		args = `{"script":` + script + `,"files":[` + strings.Join(l, ",") + `]}`
	case 3:
		args = `{"script":` + odd + `,"files":` + files + `}`
	case 4:
		args = `{"scripts":` + script + `,"files":` + files + `}`
	case 5:
		args = `{"script":` + script + `,"file":` + l[0] + `}`
	case 6:
		args = `{"script":` + script + `,"files":` + pick(r, []string{odd, l[0], "{" + l[0] + ":true}"}) + `}`
		if odd == `["x"]` {
			args = `{"script":` + script + `,"files":` + l[0] + `}`
		}
	case 7:
		tool = pick(r, []string{"edit_files", "Edit_file", "edit-file", "edit", ""})
		args = `{"script":` + script + `,"files":` + files + `}`
	}
	if r.P(20) {
		args = strings.TrimSuffix(args, "}") + `,"loopUntilError":true}`
	}
	return Req{T: "raw", ID: fmt.Sprint(id), Want: "errid", Raw: BStr(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":%q,"arguments":%s}}`, id, tool, args))}
}

// genBadReq makes a message a client should not send.
func genBadReq(r *RNG, id int, names ...string) Req {
	if len(names) > 0 && r.P(30) {
		return badEdit(r, id, names)
	}
	if len(names) > 0 && r.P(10) {
		return oddNames(r, id, names)
	}
	q := Req{T: "raw", ID: fmt.Sprint(id)}
	set := func(want, f string, a ...any) Req {
		q.Want, q.Raw = want, BStr(fmt.Sprintf(f, a...))
		return q
	}
	call := func(tool, args string) Req {
		return set("errid", `{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":%q,"arguments":%s}}`, id, tool, args)
	}
	switch r.N(30) {
	case 0:
		return set("error", "this is not json")
	case 1:
		return set("error", `{"jsonrpc":"2.0","id":%d,"method":`, id)
	case 2:
		return set("errid", `{"jsonrpc":"2.0","id":%d,"method":"no/such/method"}`, id)
	case 3:
		return call("no_such_tool", `{}`)
	case 4:
		return call("edit_file", `{}`)
	case 5:
		return call("edit_file", `{"script":"point"}`)
	case 6:
		return call("edit_file", `{"script":5,"files":["a.txt"]}`)
	case 7:
		return call("edit_file", `{"script":"point","files":"a.txt"}`)
	case 8:
		return call("edit_file", `{"script":"point","files":[1,2]}`)
	case 9:
		return call("edit_file", `{"script":"point","files":[]}`)
	case 10:
		return call("texted_eval", `{"input":"x"}`)
	case 11:
		return call("texted_eval", `{"script":"point"}`)
	case 12:
		odd := pick(r, []string{"5", "0", "-1.5", "null", "true", "false", "{}", "[]", `["x"]`, `{"text":"x"}`})
		return call("texted_eval", strings.ReplaceAll(pick(r, []string{`{"input":ODD,"script":"point"}`, `{"input":"x","script":ODD}`, `{"input":ODD,"script":ODD}`, `{"script":"buffer-size","output":"expression","input":ODD}`, `{"Input":"x","script":"point"}`, `{"input":"x","Script":"point"}`}), "ODD", odd))
	case 13:
		return call("texted_eval", `{"input":"x","script":"point","output":"wrong"}`)
	case 14:
		return call("texted_eval", `{"input":"x","script":"(insert \"unterminated"}`)
	case 15:
		return call("texted_doc", `{"function_name":"no-such-function-anywhere"}`)
	case 16:
		return call("texted_doc", `{"function_name":"insert","category":"search"}`)
	case 17:
		return set("errid", `{"jsonrpc":"1.0","id":%d,"method":"ping"}`, id)
	case 18:
		return set("none", `{"jsonrpc":"2.0","method":"notifications/whatever","params":{"a":1}}`)
	case 19:
		return set("error", "")
	case 20:
		return set("any", `{"jsonrpc":"2.0","id":%d,"method":"tools/call"}`, id)
	case 21:
		return set("error", `[]`)
	case 22:
		return set("any", `{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":"texted_eval","arguments":null}}`, id)
	case 23:
		return set("any", `{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":5}}`, id)
	case 24:
		return call("texted_eval", `{"input":"x","script":"(exchange-point-and-mark 1)"}`)
	case 25, 26: // arguments of no sense where anything may be answered
		odd := pick(r, []string{`""`, `" "`, `"\u0000"`, `"%"`, `"%s%d"`, `"a,b"`, `"INSERT"`, `"insert "`, `"` + strings.Repeat("x", 5000) + `"`, "0", "-1", "true", "[]", "{}", "null", `"é"`, `"("`, `"[a"`, `"\n"`, `"s"`})
		tool := pick(r, []string{"texted_doc", "texted_doc", "texted_doc", "texted_eval"})
		args := pick(r, []string{`{"function_name":ODD}`, `{"category":ODD}`, `{"category":ODD,"verbose":true}`, `{"verbose":ODD}`, `{"function_name":ODD,"category":"","verbose":ODD}`, `{"functions":ODD}`, `{"":ODD}`})
		if tool == "texted_eval" {
			args = pick(r, []string{`{"input":"x","script":ODD}`, `{"input":ODD,"script":"point"}`, `{"input":"x","script":"point","output":ODD}`, `{"input":"","script":"","output":ODD}`, `{"input":ODD,"script":ODD}`})
		}
		q.Want = "any"
		q.Raw = BStr(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":%q,"arguments":`, id, tool) + strings.ReplaceAll(args, "ODD", odd) + "}}")
		return q
	case 27: // a pattern that is none, or an odd one
		odd := pick(r, []string{"[", "(", "*", "+", "a**", "(?P<x", "\\\\", "(?i)a", "x{2000}", "\\\\Q", "^*", "()", "", "$", "(a|b|)*", "[[:alpha:]]", "\\\\p{Greek}", "\\\\C", "(?s).*"})
		f := pick(r, []string{"re-search-forward", "re-search-backward", "looking-at", "looking-back", "string-match"})
		script := f + ` \"` + odd + `\"`
		if f == "string-match" {
			script += ` \"ab\"`
		}
		q.Want = "any"
		q.Raw = BStr(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":"texted_eval","arguments":{"input":"ab\nc","script":"`, id) + script + pick(r, []string{`"}}}`, `","output":"expression"}}}`}))
		return q
	case 28:
		return set("any", `{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":"edit_file","arguments":{"script":"","files":["none/x"]}}}`, id)
	}
	return set("any", `{"jsonrpc":"2.0","id":%d,"method":"tools/call","params":{"name":"edit_file","arguments":{"script":"insert \"x\"","files":["/nonexistent/dir/file"]}}}`, id)
}
