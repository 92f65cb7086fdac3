package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	etest "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
)

var _ = context.Background

// Properties of the process as a whole, and of its edges: C16 to C20.

// ---- script tests

// TSpec is one script test file.
type TSpec struct {
	Path    string `json:"path"`
	Buf     BStr   `json:"data,omitempty"`
	Script  Script `json:"script"`
	Out     BStr   `json:"out,omitempty"`
	HasOut  bool   `json:"has_out,omitempty"`
	Res     *X     `json:"res,omitempty"`
	ResRaw  BStr   `json:"res_raw,omitempty"` // an expected result that is no value
	Err     string `json:"err,omitempty"`
	Raw     BStr   `json:"raw,omitempty"` // not a test at all
	Missing bool   `json:"missing,omitempty"`
	Style   int    `json:"style,omitempty"`
}

func xmlEsc(s string, cdata bool) string {
	if cdata && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		return "<![CDATA[" + s + "]]>"
	}
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;").Replace(s)
}

// XML is the content of the test file.
func (t *TSpec) XML() string {
	if t.Raw != "" {
		return string(t.Raw)
	}
	cd := t.Style%5 == 4
	var sb strings.Builder
	fmt.Fprintf(&sb, "<buffer>%s</buffer>\n", xmlEsc(string(t.Buf), cd))
	pad := pick(NewRNG(uint64(t.Style)), []string{"\n", "", "  ", "\n\n"})
	fmt.Fprintf(&sb, "<input lang=\"shell\">%s%s%s</input>\n", pad, xmlEsc(t.Script.Text(), t.Style%7 == 6), pad)
	if t.HasOut {
		fmt.Fprintf(&sb, "<output>%s</output>\n", xmlEsc(string(t.Out), cd))
	}
	if t.ResRaw != "" {
		fmt.Fprintf(&sb, "<result lang=\"sexp\">%s%s</result>\n", pad, xmlEsc(string(t.ResRaw), false))
	} else if t.Res != nil {
		fmt.Fprintf(&sb, "<result%s>%s%s%s</result>\n", pick(NewRNG(uint64(t.Style/3)), []string{"", ` lang="sexp"`}), pad, xmlEsc(t.Res.Sexp(), false), pad)
	}
	if t.Err != "" {
		fmt.Fprintf(&sb, "<error lang=\"sexp\">%s</error>\n", xmlEsc(t.Err, false))
	}
	return sb.String()
}

const undefErr = `(undefined-function "no-such-command")`

// want is the right verdict; known is false where the property says nothing.
func (t *TSpec) want() (pass, known bool) {
	if t.Raw != "" || t.Missing {
		return false, true
	}
	if t.Script.Broken {
		return false, t.Err == ""
	}
	if strings.TrimSpace(t.Script.Text()) == "" {
		return false, false
	}
	b := NewMBuf(string(t.Buf))
	v := mEmpty
	undef := false
	ok := true
	for _, x := range t.Script.Stmts {
		var err error
		if v, err = b.Eval(x); err != nil {
			ok = false
			undef = x.K == "l" && len(x.L) > 0 && x.L[0].S == "no-such-command"
			break
		}
	}
	if b.Odd {
		return false, false
	}
	if t.Err != "" {
		if ok {
			return false, true
		}
		if t.Err == undefErr {
			return undef, true
		}
		return false, true
	}
	if !ok {
		return false, true
	}
	if t.ResRaw != "" {
		return false, true
	}
	if t.HasOut && t.Out == "" || !t.HasOut && t.Res == nil {
		return false, false
	}
	if t.HasOut && string(t.Out) != b.T {
		return false, true
	}
	if r := t.Res; r != nil {
		switch r.K {
		case "s":
			return v.K == 's' && v.S == string(r.S), true
		case "n":
			return v.K == 'n' && v.N == r.N, true
		default:
			return v.K == 'y' && v.S == string(r.S), true
		}
	}
	return true, true
}

// genTests adds n script tests to the case; badPct percent of them are not
// readable tests.
func genTests(r *RNG, c *Case, n, badPct int) {
	first := len(c.Tests)
	for i := 0; i < n; i++ {
		t := TSpec{Path: fmt.Sprintf("tests/%s%d.xml", pick(r, []string{"t", "case-", "x y"}), len(c.Tests)), Style: r.N(1000)}
		if len(c.Tests) > 0 && r.P(8) { // the name of another one, elsewhere
			q := path.Join(pick(r, []string{"other", "tests/sub"}), path.Base(pick(r, c.Tests).Path))
			dup := false
			for j := range c.Tests {
				dup = dup || c.Tests[j].Path == q
			}
			if !dup {
				t.Path = q
			}
		}
		switch {
		case r.P(badPct / 2):
			t.Raw = BStr(pick(r, []string{"<buffer>abc", "<buffer>x</output>", "not xml at all <", "<input>point</input><", "&bogus;", "<buffer a=>x</buffer>", "</testcase><testcase>"}))
			c.Tests = append(c.Tests, t)
			continue
		case r.P(badPct / 2):
			t.Missing = true
			c.Tests = append(c.Tests, t)
			continue
		}
		var sb strings.Builder
		for j := r.N(6); j > 0; j-- {
			sb.WriteString(genLine(r))
			if j > 1 || r.P(70) {
				sb.WriteByte('\n')
			}
		}
		if r.N(70) == 0 {
			sb.WriteString(strings.ToValidUTF8(sized(r, r.In(4000, pick(r, []int{9000, 70000, 150000}))), "?"))
		}
		t.Buf = BStr(sb.String())
		t.Script = genScriptIn(r, sb.String(), genOpt{}, 25, Script{Syntax: pick(r, []string{"shell", "shell", "sexp"}), Sep: r.N(100)})
		o := t.Script.Apply(string(t.Buf))
		if o.Odd || !utf8.ValidString(o.Text) || strings.ContainsAny(o.Text, "\x00\r") {
			i--
			continue
		}
		lie := r.P(25)
		if !o.OK {
			switch r.N(3) {
			case 0:
				t.Err = undefErr
				if r.P(60) {
					t.Script.Broken, t.Script.Raw = false, ""
					t.Script.Stmts = append(genStmts(r, string(t.Buf), genOpt{safe: true}), xc("no-such-command", xi(1)))
				}
			case 1:
				t.Err = "some entirely different error"
			case 2:
				t.HasOut, t.Out = true, t.Buf+"z"
			}
			c.Tests = append(c.Tests, t)
			continue
		}
		if r.P(8) {
			t.Err = pick(r, []string{undefErr, "some entirely different error"})
			c.Tests = append(c.Tests, t)
			continue
		}
		which := r.N(3)
		if o.Text == "" {
			which = 1
		}
		if which != 1 {
			t.HasOut, t.Out = true, BStr(o.Text)
			if lie && r.P(70) {
				lie = false
				s := o.Text
				switch r.N(5) {
				case 0:
					t.Out = BStr(s + "\n")
				case 1:
					t.Out = BStr(" " + s)
				case 2:
					t.Out = BStr(s[:len(s)-1] + "\u00a0")
				case 3:
					t.Out = BStr(strings.ToUpper(s) + "!")
				case 4:
					t.Out = BStr(s + s)
				}
				if !utf8.ValidString(string(t.Out)) {
					t.Out = BStr(s + "?")
				}
			}
		}
		if which != 0 {
			v := o.Val
			x := X{K: string(v.K), S: BStr(v.S), N: v.N}
			if lie {
				switch {
				case r.P(30):
					x = pick(r, []X{xs("other"), xi(77), xy("nil"), xs("")})
				case r.P(70):
					x = nearMiss(r, x)
				case x.K == "s":
					x.S += "x"
				case x.K == "n":
					x.N++
				default:
					x.S = "t"
				}
			}
			if x.K == "y" && x.S == "" {
				x = xy("nil")
			}
			t.Res = &x
			if r.P(5) {
				t.ResRaw = BStr(pick(r, []string{"(", "\"a", x.Sexp() + " " + x.Sexp(), "1 2", "(concat \"a\"", x.Sexp() + " (", x.Sexp() + " \""}))
			}
		}
		c.Tests = append(c.Tests, t)
	}
	for i := first; i < len(c.Tests); i++ { // a complete test and something broken behind it
		if t := &c.Tests[i]; !t.Missing && t.Raw == "" && r.P(badPct/3) {
			x := t.XML()
			if r.P(70) {
				x += pick(r, []string{"<oops", "<error lang=", "</output>", "&bogus;", "<a></b>", "<result>", "<!-- ", "<b", "\x01", "</buffer>\n", "<![CDATA[", "<output>x</output", "&"})
			} else {
				x = x[:strings.LastIndex(x, "</")+r.In(1, 5)]
			}
			t.Raw = BStr(x)
		}
	}
}

// nearMiss is a value much like x that is not x.
func nearMiss(r *RNG, x X) X {
	y := x
	switch x.K {
	case "s":
		s := string(x.S)
		switch r.N(9) {
		case 0:
			s += " "
		case 1:
			s = " " + s
		case 2:
			s += "\n"
		case 3:
			if s = strings.ToUpper(s); s == string(x.S) {
				s = strings.ToLower(s)
			}
		case 4:
			s = strings.TrimSpace(s)
		case 5:
			if s != "" {
				s = s[:len(s)-1]
			}
		case 6:
			s = strings.ReplaceAll(s, " ", "  ")
		case 7: // the symbol of that name
			if s != "" && !strings.ContainsAny(s, " \t\r\n\"();\\") && !strings.ContainsAny(s[:1], "+-.0123456789nNiI_") {
				y.K = "y"
			}
		case 8: // the number written so
			if n, err := strconv.ParseFloat(s, 64); err == nil && n == n && n > -1e15 && n < 1e15 {
				return X{K: "n", N: n}
			}
		}
		if y.S = BStr(s); !utf8.ValidString(s) {
			y.S = "?"
		}
	case "n":
		switch r.N(5) {
		case 0:
			y.N += 0.5
		case 1:
			y.N -= 1
		case 2:
			y.N = -y.N
		case 3:
			y = xs(strconv.FormatFloat(x.N, 'f', -1, 64))
		case 4:
			y.N += 1.0 / 1024
		}
	case "y":
		n := string(x.S)
		switch r.N(5) {
		case 0, 1:
			n = strings.ToUpper(n)
		case 2:
			n = n[:min(1, len(n))]
		case 3:
			n += pick(r, []string{"-", "1", "s"})
		case 4:
			y = xs(n)
		}
		if y.K == "y" {
			y.S = BStr(n)
		}
	}
	if y.K == x.K && y.S == x.S && y.N == x.N {
		y = xs("other")
	}
	return y
}

func testFlags(r *RNG) []string {
	var a []string
	for _, f := range []string{"-v", "-q", "--fail-only", "--trace"} {
		if r.P(20) {
			a = append(a, f)
		}
	}
	return a
}

// ---- C16

var soup = []string{"insert", "goto-char", "search-forward", "\"a\"", "\"", "(", ")", "((", "))", "'x", "1", "-1", "1e18", "NaN", "Inf", "-Inf", "9223372036854775807", "-9223372036854775808", "0x1p62", "1e400", ";", "\n", "point", "concat", "kill-line", "delete-line", "mark-line", "delete-char", "forward-word", "backward-kill-word", "substring", "buffer-substring", "\"[\"", "\\", "#", "日本", "\x00", "\xff", "set-mark-command", "exchange-point-and-mark", "delete-region", "replace-region", "kill-word", "()", "nil", "length", "\"\\q\"", "replace-match", "beginning-of-line", "line-number-at-pos", "current-column"}
var wildNums = []string{"NaN", "Inf", "-Inf", "1e18", "-1e18", "9223372036854775807", "-9223372036854775808", "1e308", "-1e308", "0", "-1", "0.5", "-0.5", "4294967296", "1e10", "2147483648", "99999", "1e9", "-2147483649"}

var nFuncs = func() []string {
	var out []string
	for f, s := range sigs {
		if strings.Contains(s, "n") {
			out = append(out, f)
		}
	}
	sortStrings(out)
	return out
}()

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// wildScript makes a script nobody should write.
func wildScript(r *RNG, text string) Script {
	switch r.N(7) {
	case 0, 1: // real statements, absurd arguments
		s := Script{Syntax: pick(r, []string{"shell", "sexp", "json"}), Sep: r.N(100)}
		s.Stmts = genStmts(r, text, genOpt{wild: true, json: s.Syntax == "json", long: r.P(10)})
		return s
	case 2: // token soup
		var sb strings.Builder
		for n := r.In(1, 40); n > 0; n-- {
			sb.WriteString(pick(r, soup))
			if !r.P(20) {
				sb.WriteByte(' ')
			}
		}
		return Script{Syntax: "shell", Broken: true, Raw: BStr(sb.String())}
	case 3: // garbage
		b := make([]byte, r.N(200))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return Script{Syntax: pick(r, []string{"shell", "json"}), Broken: true, Raw: BStr(b)}
	case 4: // deep nesting
		d := pick(r, []int{10, 100, 1000, 5000, 12000})
		switch r.N(5) {
		case 0:
			return Script{Syntax: "shell", Broken: true, Raw: BStr(strings.Repeat("(", d))}
		case 1:
			return Script{Syntax: "shell", Broken: true, Raw: BStr(strings.Repeat("(concat ", min(d, 5000)) + `"x"` + strings.Repeat(")", min(d, 5000)))}
		case 2:
			return Script{Syntax: "json", Broken: true, Raw: BStr("[" + strings.Repeat(`["concat",`, d) + `"x"` + strings.Repeat("]", d) + "]")}
		case 3:
			return Script{Syntax: "json", Broken: true, Raw: BStr(strings.Repeat("[", d))}
		default:
			return Script{Syntax: "shell", Broken: true, Raw: BStr(strings.Repeat("(upcase ", min(d, 5000)) + `(no-such)` + strings.Repeat(")", min(d, 5000)))}
		}
	default: // commands that count, with numbers that are none
		var sb strings.Builder
		for n := r.In(1, 8); n > 0; n-- {
			f := pick(r, nFuncs)
			if r.P(30) {
				f = pick(r, []string{"goto-char", "set-mark-command", "exchange-point-and-mark", "delete-region", "end-of-buffer", "mark-whole-buffer", "insert \"ab\"", "replace-region \"z\"", "kill-line", "delete-char", "point", "mark-word", "search-forward \"a\"", "replace-match \"b\"", "current-column", "line-number-at-pos", "beginning-of-line", "end-of-line", "delete-backward-char"})
			}
			sb.WriteString(f)
			switch sigs[f] {
			case "nn":
				fmt.Fprintf(&sb, " %s %s", pick(r, wildNums), pick(r, wildNums))
			case "n", "?n":
				fmt.Fprintf(&sb, " %s", pick(r, wildNums))
			case "sn?n":
				fmt.Fprintf(&sb, " \"hello\" %s", pick(r, wildNums))
				if r.P(70) {
					fmt.Fprintf(&sb, " %s", pick(r, wildNums))
				}
			}
			sb.WriteByte('\n')
		}
		return Script{Syntax: "shell", Broken: true, Raw: BStr(sb.String())}
	}
}

// deepScript is nested deeper than any stack could follow.
func deepScript(r *RNG) Script {
	n := pick(r, []int{300_000, 1_200_000, 2_600_000})
	s := Script{Syntax: pick(r, []string{"shell", "sexp"}), Broken: true, Raw: "(", Deep: n}
	switch r.N(6) {
	case 4, 5: // as deep as may be, failing at the bottom
		n = pick(r, []int{60, 700, 3000, 9980})
		s.Deep = n
		s.Raw, s.Mid, s.Shut = pick(r, []BStr{`(concat "a" `, `(concat `, `(upcase `, `(length `}), pick(r, []string{`(search-forward "zzz")`, "()", "(no-such 1)", "nil", `"x"`, "7"}), n
	case 0:
		s.Shut = n
	case 1:
		s.Raw, s.Mid, s.Shut = "(upcase ", `"x"`, n
	case 2:
		s.Raw, s.Mid, s.Shut = "(a ", "", n-r.In(0, 2)
	}
	return s
}

func genC16(r *RNG) []*Case {
	c := genPlain(r, r.In(1, 3), 1)
	for i := range c.Nodes {
		c.Nodes[i].Mode = 0
	}
	text := string(c.Nodes[0].Data)
	c.Script = wildScript(r, text)
	c.Edit.Style = r.N(60)
	c.O.RSeed = uint64(r.N(4))
	c.Mode = pick(r, []string{"lib", "lib", "cli", "expr", "parse", "batch", "mcp", "mcp", "test"})
	deep := r.N(1200) == 0
	if deep {
		c.Script = deepScript(r)
		c.Mode = pick(r, []string{"lib", "cli", "parse", "batch", "mcp", "test"})
	}
	switch c.Mode {
	case "cli":
		c.Stdin = []BStr{BStr(text)}
		c.Edit.ViaFile = deep || r.P(60) || c.Script.Text() == "" || strings.Contains(c.Script.Text(), "\x00")
	case "expr":
		c.Files = []string{c.Nodes[0].Path}
		c.Edit.Exprs = []Script{c.Script}
		if r.P(40) {
			c.Edit.Exprs = append(c.Edit.Exprs, Script{Syntax: c.Script.Syntax, Broken: true, Raw: wildScript(r, text).Raw + " "})
		}
		c.Edit.OutFmt = pick(r, []string{"", "shell", "sexp", "json"})
	case "parse":
		c.Argv = []string{"texted", "parse", "--input-format", c.Script.Syntax, "--output-format", pick(r, []string{"shell", "sexp", "json"})}
		c.Stdin = []BStr{BStr(c.Script.Text())}
		if c.Script.Syntax == "json" && r.P(50) {
			c.Stdin = []BStr{BStr(c.Script.JSONStream())}
		}
	case "batch":
		for _, n := range c.Nodes {
			c.Files = append(c.Files, n.Path)
		}
		c.Edit.InPlace = true
		c.Edit.ViaFile = deep || r.P(60) || c.Script.Text() == "" || strings.Contains(c.Script.Text(), "\x00")
	case "mcp":
		c.Kind = "mcp"
		c.Lock = r.P(70)
		for i := r.In(1, 4); i > 0; i-- {
			s := wildScript(r, text)
			if deep {
				s = c.Script
			}
			if s.Syntax == "json" {
				s.Syntax = "shell"
			}
			if r.P(50) {
				c.Reqs = append(c.Reqs, Req{T: "edit", ID: fmt.Sprint(len(c.Reqs) + 1), Files: []string{pick(r, c.Nodes).Path}, Script: s})
			} else {
				c.Reqs = append(c.Reqs, Req{T: "eval", ID: fmt.Sprint(len(c.Reqs) + 1), Input: BStr(text), Script: s, Output: pick(r, []string{"", "buffer", "expression"})})
			}
		}
	case "test":
		c.Tests = []TSpec{{Path: "tests/w.xml", Buf: BStr("some text\n"), Script: Script{Syntax: "shell", Broken: true, Raw: BStr(strings.ToValidUTF8(strings.Map(func(x rune) rune {
			if x < 32 && x != '\n' {
				return ' '
			}
			return x
		}, c.Script.Text()), "?"))}, HasOut: true, Out: "x"}}
		c.Argv = append([]string{"texted", "test"}, append(testFlags(r), "tests/w.xml")...)
	}
	if c.Mode != "mcp" && c.Script.Text() == "" && len(c.Argv) == 0 {
		c.Edit.ViaFile = true
	}
	return []*Case{c}
}

func tokens(s string) int {
	n, in := 0, false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\n', '\t', ';', ',', '[', ']':
			in = false
		case '(', ')':
			n++
			in = false
		default:
			if !in {
				n++
			}
			in = true
		}
	}
	return n
}

func evalC16(c *Case) *Viol {
	k := c.kernel(true)
	in := 0
	for _, n := range c.Nodes {
		in = max(in, len(n.Data))
	}
	for _, s := range c.Stdin {
		in += len(s)
	}
	size, toks := 0, 0
	add := func(t string, times int) {
		size += len(t)
		toks += tokens(t) * times
	}
	switch {
	case c.Mode == "mcp":
		for i := range c.Reqs {
			add(c.Reqs[i].Script.Text(), 1)
		}
	case len(c.Edit.Exprs) > 0:
		for i := range c.Edit.Exprs {
			add(c.Edit.Exprs[i].Text(), 1)
		}
	default:
		add(c.Script.Text(), max(1, len(c.Files)))
	}
	maxlen := in + 20*size + min(size*size, 200000)
	cc := *c
	cc.O.Budget = int64(min(400_000+400*float64(toks+10)*float64(maxlen+200), 250_000_000+60*float64(size)))
	memMax := uint64(min(96<<20+60*float64(toks+10)*float64(maxlen+1000), 1e18))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var out *Out
	after := ""
	switch c.Mode {
	case "lib":
		out = &Out{}
		out.Result = Run(k, cc.O, func() {
			text := ""
			if len(c.Nodes) > 0 {
				text = string(c.Nodes[0].Data)
			}
			texted.ExecuteScriptWithFormat(text, c.Script.Text(), c.Script.Syntax)
			after, _ = texted.ExecuteScript("abc", `insert "x"`)
		})
	default:
		if c.Mode == "mcp" {
			cc.Reqs = append(cc.Reqs[:len(cc.Reqs):len(cc.Reqs)], Req{T: "eval", ID: "9999", Input: "abc", Output: "buffer", Script: Script{Syntax: "shell", Stmts: []X{xc("insert", xs("x"))}}})
			s := cc.session()
			s.attach(k)
			out = &Out{Result: Run(k, cc.O, runMain(mcpArgs(c.Reqs...)))}
			s.parse(k)
			for _, a := range s.answers {
				if a.ID == "9999" {
					after = a.Text
				}
			}
		} else {
			out = cc.exAny(k)
		}
	}
	runtime.ReadMemStats(&m1)
	st.note(out.Result, true)
	if v := out.sane(); v != nil {
		return v
	}
	if d := m1.TotalAlloc - m0.TotalAlloc; d > memMax {
		return viol("memory", "%d MB allocated for a script of %d bytes on %d bytes of text", d>>20, size, in).with(k)
	}
	switch c.Mode {
	case "lib", "mcp":
		if after != "xabc" {
			return viol("wedged", "after the script the process answers %s to a plain request, want \"xabc\" (exit %d, %d steps, %d calls, output %s, errors %s)", short(after), out.Exit, out.Steps, k.nsys, short(string(k.Stdout)), short(string(k.Stderr))).with(k)
		}
	case "batch":
		if n := len(out.Verdicts); n != len(c.Files) && !c.Edit.Quiet {
			return viol("batch", "%d verdicts for %d files: %s", n, len(c.Files), short(string(k.Stdout))).with(k)
		}
	}
	return nil
}

// ---- C17

// Call is one concurrent caller: what it asks for, one after the other.
type Call struct {
	Entry string `json:"entry"`
	Reqs  []Req  `json:"reqs"`
}

func genC17(r *RNG) []*Case {
	c := &Case{}
	n := r.In(2, 4)
	var shared *Script
	if r.P(40) {
		s := genScriptIn(r, genText(r, 0), genOpt{}, 15, Script{Syntax: "shell", Sep: r.N(100)})
		shared = &s
	}
	var same *Req // something all of them ask
	if r.P(15) {
		same = &Req{T: "doc", Func: pick(r, []string{"", "", "insert", "no-such"}), Cat: pick(r, []string{"", "", "search", "odd"}), Verb: r.P(50)}
	}
	for i := 0; i < n; i++ {
		call := Call{Entry: pick(r, []string{"lib", "tool", "tool"})}
		if same != nil {
			call.Entry = "tool"
		}
		var own []Node
		base := genText(r, 0)
		for j := r.In(1, 2); j > 0; j-- {
			nd := Node{Path: fmt.Sprintf("%c%d.txt", 'a'+i, j), Data: BStr(base)}
			if r.P(15) {
				nd.Path = fmt.Sprintf("dir/%c%d.txt", 'a'+i, j)
			}
			own = append(own, nd)
		}
		c.Nodes = append(c.Nodes, own...)
		for j := r.In(1, 4); j > 0; j-- {
			q := genReq(r, len(call.Reqs)+1, own, 15)
			switch {
			case same != nil && r.P(60):
				id := q.ID
				q = *same
				q.ID = id
			case q.T == "ping" || q.T == "list":
				q.T = "doc"
				q.Verb = r.P(50)
			case r.P(12):
				q = Req{T: "parse", Input: BStr(genText(r, 0)), Script: genScript(r, base, genOpt{}, 10), Output: pick(r, []string{"shell", "sexp", "json"})}
			case r.P(12):
				q = Req{T: "exec", Input: BStr(base), Script: genScript(r, base, genOpt{}, 15)}
			case r.P(10):
				var t Case
				genTests(r, &t, 1, 0)
				ts := t.Tests[0]
				ts.Path = fmt.Sprintf("tests/%c%d.xml", 'a'+i, len(c.Tests))
				c.Tests = append(c.Tests, ts)
				q = Req{T: "test", Files: []string{ts.Path}}
			}
			if q.T == "edit" {
				for k, f := range q.Files {
					if f == "missing.txt" {
						q.Files[k] = fmt.Sprintf("missing-%c.txt", 'a'+i)
					}
				}
			}
			if shared != nil && (q.T == "edit" || q.T == "eval") && r.P(60) {
				q.Script = *shared
			}
			call.Reqs = append(call.Reqs, q)
		}
		c.Callers = append(c.Callers, call)
	}
	var out []*Case
	for i := 0; i < 3; i++ {
		v := *c
		v.O.RSeed = r.U() % 1000
		v.O.SSeed = r.U() >> 16
		v.O.SwitchMean = pick(r, []int{2, 5, 15, 60, 300})
		v.O.SwitchSys = true
		if r.P(40) && len(c.Nodes) > 0 {
			for j := r.In(1, 2); j > 0; j-- {
				nd := pick(r, c.Nodes)
				op := pick(r, []string{"open", "read", "write", "close"})
				f := Fault{Op: op, Path: "/w/" + nd.Path, Nth: r.N(3), Kind: "errno", Errno: pick(r, errnos[op])}
				if r.P(40) && (op == "read" || op == "write") {
					f.Kind, f.N, f.Errno = "short", r.In(1, 9), 0
				}
				v.Faults = append(v.Faults, f)
			}
		}
		out = append(out, &v)
	}
	return out
}

// do performs the requests of one caller and returns what each said.
func (cl *Call) do(got []string) {
	env := edlisp.NewDefaultEnvironment()
	for i := range cl.Reqs {
		q := &cl.Reqs[i]
		switch q.T {
		case "parse":
			p, err := parser.ParseFormat(q.Script.Syntax, q.Script.Text())
			var sb strings.Builder
			w, _ := writer.NewWriter(writer.Format(q.Output))
			err2 := w.Write(&sb, p)
			got[i] = fmt.Sprintf("%v %v %s", err, err2, sb.String())
		case "exec":
			s, err := texted.ExecuteScriptWithFormat(string(q.Input), q.Script.Text(), q.Script.Syntax)
			got[i] = fmt.Sprintf("%q %v", s, err)
		default:
			e := cl.Entry
			if q.T == "eval" || q.T == "doc" {
				e = "tool"
			}
			got[i] = q.call(e, env)
		}
	}
}

// owner tells which caller a path of the simulated machine belongs to.
func (c *Case) owner(k *Kernel) map[string]int {
	m := map[string]int{}
	for i := range c.Callers {
		for _, q := range c.Callers[i].Reqs {
			for _, f := range q.Files {
				m[k.canon(f)] = i
			}
		}
	}
	return m
}

func evalC17(c *Case) *Viol {
	n := len(c.Callers)
	if n == 0 || n > len(callerTab) {
		return nil
	}
	seenBy := map[string]int{}
	for i := range c.Callers {
		for _, q := range c.Callers[i].Reqs {
			for _, f := range q.Files {
				if j, ok := seenBy[f]; ok && j != i {
					return nil // callers share a file: nothing is promised
				}
				seenBy[f] = i
			}
		}
	}
	k := c.kernel(true)
	got := make([][]string, n)
	bodies := make([]func(), n)
	for i := range c.Callers {
		got[i] = make([]string, len(c.Callers[i].Reqs))
		cl, g := &c.Callers[i], got[i]
		bodies[i] = func() { cl.do(g) }
	}
	raceReports()
	res := RunCallers(k, c.O, bodies)
	races := raceReports()
	st.note(res, true)
	if v := res.sane(); v != nil {
		return v
	}
	if len(races) > 0 {
		return viol("data-race", "concurrent requests race: %s", raceSum(races[0])).with(k)
	}
	own := c.owner(k)
	for i := range c.Callers {
		ka := c.kernel(true)
		ga := make([]string, len(c.Callers[i].Reqs))
		cl := &c.Callers[i]
		o := c.O
		o.SwitchMean, o.SwitchSys = 0, false
		ra := Run(ka, o, func() { cl.do(ga) })
		if v := ra.sane(); v != nil {
			return v
		}
		for j := range ga {
			if ga[j] != got[i][j] {
				return viol("interference", "caller %d request %d (%s) says %s when others run concurrently, %s alone", i, j, cl.Reqs[j].T, short(got[i][j]), short(ga[j])).with(k)
			}
		}
		for _, p := range sortedKeys(own) {
			if own[p] != i {
				continue
			}
			a, aok := ka.Content(p)
			b, bok := k.Content(p)
			if a != b || aok != bok {
				return viol("interference", "%s holds %s after concurrent requests, %s when its caller runs alone", p, short(b), short(a)).with(k)
			}
		}
	}
	for _, e := range k.Snapshot() {
		if e.Kind != "f" {
			continue
		}
		if _, mine := own[e.Path]; mine {
			continue
		}
		k0 := c.kernel(true)
		if was, ok := k0.Content(e.Path); !ok || was != e.Data {
			return viol("interference", "%s belongs to no request but now holds %s", e.Path, short(e.Data)).with(k)
		}
	}
	return nil
}

var raceLine = regexp.MustCompile(`(?m)^  (\S+\()\)?|^(Write|Read|Previous write|Previous read) at`)

func raceSum(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Previous") {
			out = append(out, strings.Fields(t)[0]+" in")
		} else if strings.HasPrefix(l, "  ") && strings.Contains(t, "texted/") && strings.HasSuffix(t, "()") && !strings.Contains(t, "/cmd/texted.") {
			out = append(out, t)
		}
		if len(out) > 10 {
			break
		}
	}
	return strings.Join(out, " ")
}

// ---- C18

func genC18(r *RNG) []*Case {
	var c *Case
	switch r.N(9) {
	case 0, 1:
		c = genBatch(r, batchOpt{maxFiles: 4, size: 1, failPct: 15, bad: 10, backup: 25, links: r.P(20)})
		c.Edit.DryRun = c.Entry == "cli" && r.P(15)
	case 2:
		c = genPlain(r, 1, 1)
		c.Files = []string{c.Nodes[0].Path}
		c.Edit.Style = r.N(60)
		if r.P(25) {
			c.Entry = pick(r, []string{"lib", "cli", "tool", "mcp"})
			for c.Script = wildScript(r, string(c.Nodes[0].Data)); len(c.Script.Raw) > 30000 || c.Script.Syntax == "json"; {
				c.Script = wildScript(r, string(c.Nodes[0].Data))
			}
			break
		}
		c.Edit.Exprs = genExprs(r, string(c.Nodes[0].Data), 15)
		c.Edit.OutFmt = pick(r, []string{"", "shell", "sexp", "json"})
	case 3:
		c = &Case{Entry: "cli"}
		s := genScript(r, genText(r, 0), genOpt{}, 10)
		t := s.Text()
		if s.Syntax == "json" {
			t = s.JSONStream()
		}
		c.Argv = []string{"texted", "parse", "--input-format", s.Syntax, "--output-format", pick(r, []string{"shell", "sexp", "json"})}
		c.Stdin = chunks(r, t, 30)
	case 4, 5:
		c = &Case{Entry: "cli"}
		c.Argv = append([]string{"texted", "doc"}, pick(r, [][]string{{}, {}, {"-v"}, {"--verbose"}, {"insert"}, {"search-forward"}, {"nope"}, {"--category", "search"}, {"--category", "editing"}, {"--category", "nope"}, {"--category", "buffer", "-v"}, {"--category", "movement", "--verbose"}, {"--help"}})...)
		if r.P(10) {
			c.Argv = pick(r, [][]string{{"texted"}, {"texted", "--help"}, {"texted", "edit", "--help"}, {"texted", "nonsense"}, {"texted", "test", "--help"}})
		}
	case 6:
		c = &Case{Entry: "cli"}
		genTests(r, c, r.In(1, 4), 10)
		c.Argv = append([]string{"texted", "test"}, testFlags(r)...)
		if r.P(60) {
			for _, t := range c.Tests {
				c.Argv = append(c.Argv, t.Path)
			}
		}
	default:
		c = genSession(r, 9, 15, 20)
		if r.P(15) { // much to do
			text := genText(r, 1)
			stmts := genStmts(r, text, genOpt{safe: true, long: true})
			for len(stmts) < 70 {
				b := NewMBuf(text)
				for _, x := range stmts {
					b.Eval(x)
				}
				stmts = append(stmts, genStmts(r, b.T, genOpt{safe: true, long: true})...)
			}
			if r.P(20) {
				for len(stmts) < 600 {
					stmts = append(stmts, xc("insert", xs("y")), xc("point"))
				}
			}
			s := Script{Syntax: "shell", Sep: r.N(100), Stmts: stmts}
			c.Reqs = append(c.Reqs, Req{T: "eval", ID: strconv.Itoa(900 + len(c.Reqs)), Input: BStr(text), Script: s, Output: pick(r, []string{"", "buffer", "expression"})})
			if len(c.Nodes) > 0 && r.P(50) {
				c.Reqs = append(c.Reqs, Req{T: "edit", ID: strconv.Itoa(900 + len(c.Reqs)), Files: []string{c.Nodes[0].Path}, Script: s})
			}
		}
		if r.P(70) {
			c.Lock = true
			for n := r.In(1, 3); n > 0; n-- { // the same again
				q := pick(r, c.Reqs)
				switch q.T {
				case "edit", "eval", "doc", "list", "ping":
					q.ID = strconv.Itoa(1000 + len(c.Reqs))
					c.Reqs = append(c.Reqs, q)
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		c.RSeeds = append(c.RSeeds, r.U()>>20)
	}
	if r.P(25) {
		b := c.exAny(c.kernel(false))
		if f, ok := faultFrom(r, b.K.Log, r.P(40), func(e *Event) bool { return !strings.HasPrefix(e.Path, "<") }); ok {
			c.Faults = append(c.Faults, f)
		}
	}
	return []*Case{c}
}

func evalC18(c *Case) *Viol {
	var k0 *Kernel
	var o0 *Out
	for i, s := range append([]uint64{0}, c.RSeeds...) {
		cc := *c
		cc.O.RSeed = s
		cc.O.Clock = int64(s%1_000_000) * 86_400_000_000_0
		if i > 0 {
			cc.O.SSeed = s
			cc.O.SwitchMean = []int{0, 9, 120}[s%3]
			cc.O.SwitchSys = s%2 == 1
			cc.O.Slow = []int64{1, 1, 30, 1000, 200_000, 3_000_000}[s/7%6]
		}
		k := cc.kernel(true)
		var again func() *Viol
		var o *Out
		if i == 0 && c.Kind == "mcp" && c.Lock && len(c.Faults) == 0 {
			o, again = cc.exRepeats(k)
		} else {
			o = cc.exAny(k)
		}
		st.note(o.Result, true)
		if v := o.sane(); v != nil {
			return v
		}
		if again != nil {
			if v := again(); v != nil {
				return v.with(k)
			}
		}
		if i == 0 {
			k0, o0 = k, o
			continue
		}
		switch {
		case o.Exit != o0.Exit:
			return viol("exit-differs", "the same request exits with %d and %d", o0.Exit, o.Exit).with(k)
		case string(k.Stdout) != string(k0.Stdout):
			return viol("output-differs", "the same request prints %s", diffAt(string(k0.Stdout), string(k.Stdout))).with(k)
		case string(k.Stderr) != string(k0.Stderr):
			return viol("stderr-differs", "the same request writes to standard error %s", diffAt(string(k0.Stderr), string(k.Stderr))).with(k)
		case fmt.Sprint(o.Verdicts) != fmt.Sprint(o0.Verdicts) || o.Text != o0.Text:
			return viol("answer-differs", "the same request is answered %s", diffAt(fmt.Sprint(o0.Verdicts, o0.Text), fmt.Sprint(o.Verdicts, o.Text))).with(k)
		}
		if d := diffTree(k0.Snapshot(), k.Snapshot(), ""); d != "" {
			return viol("files-differ", "the same request leaves different files: %s", d).with(k)
		}
	}
	return nil
}

// exRepeats runs a conversation and compares, afterwards, the answers of
// requests that were made more than once on the same files.
func (c *Case) exRepeats(k *Kernel) (*Out, func() *Viol) {
	s := c.session()
	at := make([]uint64, len(s.lines)) // the files when a line was sent
	s.onSend = func(i int) {
		h := fnv.New64a()
		for _, e := range k.Snapshot() {
			fmt.Fprintf(h, "%q %q %o %q\n", e.Path, e.Kind, e.Mode, e.Data)
		}
		at[i] = h.Sum64()
	}
	s.attach(k)
	out := &Out{Result: Run(k, c.O, runMain(mcpArgs(c.Reqs...)))}
	return out, func() *Viol {
		s.parse(k)
		type first struct {
			i    int
			body string
		}
		byID := map[string]Answer{}
		for _, a := range s.answers {
			if _, dup := byID[a.ID]; dup {
				return nil // whose answer is whose is another property
			}
			byID[a.ID] = a
		}
		seen := map[string]first{}
		for i := range c.Reqs {
			q := c.Reqs[i]
			switch q.T {
			case "edit", "eval", "doc", "list", "ping":
			default:
				continue
			}
			a, ok := byID[q.ID]
			if !ok || q.ID == "" {
				continue
			}
			var m map[string]json.RawMessage
			if json.Unmarshal([]byte(a.Raw), &m) != nil {
				continue
			}
			body := string(m["result"]) + string(m["error"])
			q.ID, q.Ext = "", nil
			line, _ := q.line()
			key := fmt.Sprint(line, at[i])
			if f, ok := seen[key]; ok && f.body != body {
				return viol("repeat-differs", "request %d, the same as request %d on the same files, is answered %s", i, f.i, diffAt(f.body, body))
			}
			seen[key] = first{i, body}
		}
		return nil
	}
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-20)
	return fmt.Sprintf("%s here and %s there (offset %d)", short(a[i:]), short(b[i:]), i)
}

// ---- C19

func genC19(r *RNG) []*Case {
	c := &Case{Entry: "cli"}
	n := r.In(1, 7)
	if r.N(250) == 0 {
		n = r.In(20, pick(r, []int{60, 150, 300}))
	}
	genTests(r, c, n, 14)
	c.Argv = append([]string{"texted", "test"}, testFlags(r)...)
	if r.P(15) {
		c.Argv = append(c.Argv, pick(r, []string{"-i", "--include"}), pick(r, []string{"t", "case", "[0-3]", "x y", "zzz", "xml$"}))
		if r.P(30) {
			c.Argv = append(c.Argv, "-i", "5")
		}
	}
	if r.P(80) {
		for i := range c.Tests {
			c.Order = append(c.Order, i)
		}
		for i := range c.Order {
			j := i + r.N(len(c.Order)-i)
			c.Order[i], c.Order[j] = c.Order[j], c.Order[i]
		}
		for r.P(25) {
			c.Order = append(c.Order, r.N(len(c.Tests)))
		}
	}
	if r.N(400) == 0 { // as many failures as wrap an exit status
		i := r.N(len(c.Tests))
		c.Tests[i].Missing = true
		c.Argv, c.Order = c.Argv[:2:2], nil
		for j := r.In(0, 2); j > 0; j-- {
			c.Order = append(c.Order, r.N(len(c.Tests)))
		}
		for j := pick(r, []int{256, 256, 512}); j > 0; j-- {
			c.Order = append(c.Order, i)
		}
	}
	c.O.RSeed = uint64(r.N(5))
	b := c.runTests(false)
	var out []*Case
	for i := 0; i < 3; i++ {
		v := *c
		for j := r.N(3); j > 0; j-- {
			if f, ok := faultFrom(r, b.K.Log, r.P(30), func(e *Event) bool {
				return strings.HasSuffix(e.Path, ".xml") && (e.Op == "open" || e.Op == "read")
			}); ok {
				if r.P(30) {
					f.Every = r.In(1, 3)
					if f.Kind == "intr" {
						f.Every++
					}
				}
				v.Faults = append(v.Faults, f)
			}
		}
		out = append(out, &v)
	}
	return out
}

func (c *Case) runTests(with bool) *Out {
	cc := *c
	cc.Argv = append([]string(nil), c.Argv...)
	for _, i := range c.Order {
		if i < len(c.Tests) {
			cc.Argv = append(cc.Argv, c.Tests[i].Path)
		}
	}
	return cc.ex(cc.kernel(with))
}

func evalC19(c *Case) *Viol {
	seen := map[string]bool{}
	for _, t := range c.Tests {
		if seen[t.Path] {
			return nil
		}
		seen[t.Path] = true
	}
	out := c.runTests(true)
	k := out.K
	st.note(out.Result, len(c.Tests) > 1 || len(k.FaultFired) > 0)
	if v := out.sane(); v != nil {
		return v
	}
	flag := map[string]bool{}
	var inc []string
	for i, a := range c.Argv {
		flag[a] = true
		if i > 0 && (c.Argv[i-1] == "-i" || c.Argv[i-1] == "--include") {
			inc = append(inc, a)
		}
	}
	var list []*TSpec
	if len(c.Order) == 0 {
		// found by itself: every file in tests/, by name
		m := map[string]*TSpec{}
		for i := range c.Tests {
			if !c.Tests[i].Missing && path.Dir(c.Tests[i].Path) == "tests" {
				m[c.Tests[i].Path] = &c.Tests[i]
			}
		}
		for _, p := range sortedKeys(m) {
			list = append(list, m[p])
		}
	}
	for _, i := range c.Order {
		if i < len(c.Tests) {
			list = append(list, &c.Tests[i])
		}
	}
	if len(inc) > 0 {
		var l []*TSpec
		for _, t := range list {
			for _, p := range inc {
				if ok, _ := regexp.MatchString(p, path.Base(t.Path)); ok {
					l = append(l, t)
					break
				}
			}
		}
		list = l
	}
	stdout := string(k.Stdout)
	if len(list) == 0 {
		if out.Exit != 0 || strings.Contains(stdout, "[PASS]") || strings.Contains(stdout, "[FAIL]") {
			return viol("empty", "no test was to run, but the status is %d and the output %s", out.Exit, short(stdout)).with(k)
		}
		return nil
	}
	// failed reads, per occurrence of a file: events of the n-th opening
	var lines [][2]string
	for _, l := range strings.Split(stdout, "\n") {
		for _, s := range []string{"PASS", "FAIL"} {
			if n, ok := strings.CutPrefix(l, "["+s+"] "); ok {
				lines = append(lines, [2]string{s, n})
			}
		}
	}
	hit := map[string]int{} // read errors per path
	for _, e := range k.Log {
		if e.Fault != "" && e.Err != "" && e.Err != "EINTR" {
			hit[e.Path]++
		}
	}
	uses := map[string]int{}
	for _, t := range list {
		uses[t.Path]++
	}
	var pass, fail int
	if _, err := fmt.Sscanf(lastLine(stdout), "Tests: %d passed, %d failed, %d total", &pass, &fail, new(int)); err != nil {
		return viol("summary", "no summary at the end of %s", short(stdout)).with(k)
	}
	total := 0
	fmt.Sscanf(lastLine(stdout), "Tests: %d passed, %d failed, %d total", &pass, &fail, &total)
	if total != len(list) || pass+fail != total {
		return viol("summary", "summary %q for %d tests", lastLine(stdout), len(list)).with(k)
	}
	if (out.Exit == 0) != (fail == 0) {
		return viol("exit", "exit status %d with %d failed tests", out.Exit, fail).with(k)
	}
	minPass, maxPass := 0, 0
	li := 0
	for _, t := range list {
		w, known := t.want()
		h := hit[k.canon(t.Path)]
		mayFail, mayPass := !w || !known, w || !known
		if h >= uses[t.Path] {
			mayFail, mayPass = true, false
		} else if h > 0 {
			mayFail = true
		}
		if mayPass {
			maxPass++
		}
		if !mayFail {
			minPass++
		}
		if flag["-q"] || flag["--fail-only"] {
			continue
		}
		if li >= len(lines) {
			return viol("unreported", "%d of %d tests are reported: %s", len(lines), len(list), short(stdout)).with(k)
		}
		l := lines[li]
		li++
		if l[1] != path.Base(t.Path) {
			return viol("order", "verdict %d is for %q, want %q", li, l[1], path.Base(t.Path)).with(k)
		}
		if l[0] == "PASS" && !mayPass {
			return viol("false-pass", "%s is reported passed; read errors: %d, test: %s", t.Path, h, short(t.XML())).with(k)
		}
		if l[0] == "FAIL" && !mayFail {
			return viol("false-fail", "%s is reported failed although it passes: %s; output %s", t.Path, short(t.XML()), short(stdout)).with(k)
		}
	}
	if pass > maxPass || pass < minPass {
		return viol("count", "%d tests reported passed, want %d to %d: %s", pass, minPass, maxPass, short(stdout)).with(k)
	}
	if flag["-q"] {
		return nil
	}
	np, nf := 0, 0
	for _, l := range lines {
		if l[0] == "PASS" {
			np++
		} else {
			nf++
		}
	}
	if nf != fail || !flag["--fail-only"] && np != pass || flag["--fail-only"] && np != 0 {
		return viol("summary", "the summary says %d passed, %d failed; the lines %d and %d", pass, fail, np, nf).with(k)
	}
	return nil
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n")
	return s[strings.LastIndexByte(s, '\n')+1:]
}

// ---- C20

// simReader delivers data in the given pieces and then ends or fails.
type simReader struct {
	data  string
	sizes []int
	i     int
	fail  error // nil: end of file
	glue  bool  // the last piece comes together with the end
	k     *Kernel
	calls int
}

func (s *simReader) Read(p []byte) (int, error) {
	s.calls++
	if s.calls > 200000 {
		panic("the reader is read for ever")
	}
	end := s.fail
	if end == nil {
		end = io.EOF
	}
	if s.data == "" {
		if s.fail != nil {
			s.k.FaultFired["reader-error"]++
		}
		return 0, end
	}
	n := len(p)
	if s.i < len(s.sizes) {
		n = s.sizes[s.i]
		s.i++
	}
	n = min(n, len(p), len(s.data))
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if s.data == "" && s.glue {
		if s.fail != nil {
			s.k.FaultFired["reader-error"]++
		}
		return n, end
	}
	return n, nil
}

// simWriter accepts some bytes, then fails: for ever or for one call.
type simWriter struct {
	got   []byte
	limit int // -1: healthy
	once  bool
	err   error
	hit   bool
}

func (s *simWriter) Write(p []byte) (int, error) {
	if s.limit >= 0 && len(s.got)+len(p) > s.limit && !(s.once && s.hit) {
		n := max(0, s.limit-len(s.got))
		s.got = append(s.got, p[:n]...)
		s.hit = true
		return n, s.err
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

var ioErrs = []error{errors.New("link down"), io.ErrUnexpectedEOF, syscall.EIO, os.ErrDeadlineExceeded, io.ErrClosedPipe, syscall.ENOSPC, io.ErrShortWrite}

func genC20(r *RNG) []*Case {
	c := &Case{}
	c.Kind = pick(r, []string{"lines", "lines", "json", "json", "testcase", "write", "write", "value"})
	text := genText(r, 0)
	c.Script = genScript(r, text, genOpt{long: true, big: true}, 10)
	switch c.Kind {
	case "json":
		c.Script = genScriptIn(r, text, genOpt{long: true, big: true}, 10, Script{Syntax: "json", Sep: r.N(9)})
	case "lines":
		if c.Script.Syntax == "json" {
			c.Script = genScriptIn(r, text, genOpt{long: true, big: true}, 10, Script{Syntax: "shell", Sep: r.N(100)})
		}
	case "testcase":
		genTests(r, c, 1, 10)
		c.Tests[0].Missing = false
	}
	c.Mode = pick(r, []string{"shell", "sexp", "json"})
	pieces := []int{1, 3, 20, 300, 5000}
	if r.N(600) == 0 && c.Kind != "testcase" { // a huge script
		if c.Script.Broken, c.Script.Raw = false, ""; c.Kind != "json" && r.P(60) {
			c.Kind = "lines"
			if c.Script.Syntax == "json" {
				c.Script.Syntax = "shell"
			}
		}
		c.Script.Stmts = nil
		for size, want := 0, r.In(70_000, pick(r, []int{300_000, 2_500_000, 2_500_000})); size < want; {
			n := r.In(10, pick(r, []int{40, 900, 20000}))
			c.Script.Stmts = append(c.Script.Stmts, xc("insert", xs(strings.ToValidUTF8(sized(r, n), "?"))))
			size += n
		}
		pieces = []int{300, 5000, 60000}
	}
	n := len(c.source())
	var out []*Case
	for i := 0; i < 6; i++ {
		v := *c
		m := pick(r, pieces)
		for j := 0; j < 60; j++ {
			s := r.In(1, 2*m)
			if r.P(5) {
				s = 0
			}
			v.Sizes = append(v.Sizes, s)
		}
		v.Loop = r.P(40) // glued end
		v.Lock = r.P(35) // transient sink failure
		if r.P(70) {
			v.OutFail = true
			v.At = r.N(n + 1)
			if r.P(30) {
				v.At = n
			}
			v.OutErr = r.N(len(ioErrs))
		}
		out = append(out, &v)
	}
	return out
}

// plain tells whether the script is one or more commands.
func (s *Script) plain() bool {
	for _, x := range s.Stmts {
		if x.K != "l" || len(x.L) == 0 {
			return false
		}
	}
	return !s.Broken && len(s.Stmts) > 0
}

// source is the text a case's reader delivers.
func (c *Case) source() string {
	switch c.Kind {
	case "json":
		return c.Script.JSONStream()
	case "testcase":
		if len(c.Tests) > 0 {
			return c.Tests[0].XML()
		}
		return ""
	}
	return c.Script.Text()
}

func evalC20(c *Case) *Viol {
	k := c.kernel(false)
	var ret *Viol
	src := c.source()
	fail := ioErrs[c.OutErr%len(ioErrs)]
	if !c.OutFail {
		fail = nil
	}
	res := Run(k, c.O, func() {
		switch c.Kind {
		case "lines", "json", "testcase":
			parse := func(rd io.Reader) (any, bool, error) {
				switch c.Kind {
				case "lines":
					p, err := parser.ParseReader(rd)
					return p, p == nil, err
				case "json":
					p, err := parser.ParseJSONReader(rd)
					return p, p == nil, err
				}
				t, err := etest.ParseTestCase(rd)
				return t, t == nil, err
			}
			data := src
			if fail != nil {
				data = src[:min(c.At, len(src))]
			}
			p, none, err := parse(&simReader{data: data, sizes: c.Sizes, fail: fail, glue: c.Loop, k: k})
			if fail != nil {
				switch {
				case err == nil && c.Kind == "testcase" && complete(data, src):
					// a document that is complete needs no further reading
				case err == nil:
					ret = viol("read-error-ignored", "the source failed after %d of %d bytes (%v) but parsing succeeded", len(data), len(src), fail)
				case !none:
					ret = viol("partial-program", "the source failed after %d of %d bytes and parsing returned both an error and a program", len(data), len(src))
				}
				return
			}
			q, _, err2 := parse(strings.NewReader(src))
			if (err == nil) != (err2 == nil) {
				ret = viol("delivery", "delivered in pieces: %v; at once: %v", err, err2)
				return
			}
			if err == nil && !reflect.DeepEqual(p, q) {
				ret = viol("delivery", "the program depends on the pieces: %s or %s", short(fmt.Sprint(p)), short(fmt.Sprint(q)))
				return
			}
			if err != nil && !none {
				ret = viol("partial-program", "parsing returned both an error (%v) and a program", err)
			}
			if es, ok := p.([]edlisp.Value); ok && c.Script.plain() && (c.Kind == "json") == (c.Script.Syntax == "json") {
				switch n := len(c.Script.Stmts); {
				case err != nil:
					ret = viol("rejected", "a script of %d commands (%d bytes) from a healthy source is refused: %v", n, len(src), err)
				case len(es) != n:
					ret = viol("partial-program", "a script of %d commands (%d bytes) is parsed as %d", n, len(src), len(es))
				}
				if ret != nil {
					return
				}
			}
			if c.Kind != "testcase" && err == nil && c.Script.Broken && c.Kind == "lines" {
				ret = viol("broken-accepted", "broken script %s was accepted", short(src))
			}
		default:
			var prog []edlisp.Value
			if c.Script.Syntax == "json" {
				prog, _ = parser.ParseJSONString(c.Script.Text())
			} else {
				prog, _ = parser.ParseString(c.Script.Text())
			}
			w, err := writer.NewWriter(writer.Format(c.Mode))
			if err != nil {
				ret = viol("format", "%v", err)
				return
			}
			write := func(to io.Writer) error {
				if c.Kind == "write" {
					return w.Write(to, prog)
				}
				for _, e := range prog {
					if err := w.WriteValue(to, e); err != nil {
						return err
					}
					if l, ok := e.(*edlisp.List); ok && c.Mode != "shell" && l.Len() > 1 {
						if err := w.WriteValue(to, l.Get(l.Len()-1)); err != nil {
							return err
						}
					}
				}
				return nil
			}
			good := &simWriter{limit: -1}
			gerr := write(good)
			if fail == nil || len(good.got) == 0 {
				return
			}
			bad := &simWriter{limit: c.At % len(good.got), once: c.Lock, err: fail}
			berr := write(bad)
			if bad.hit {
				k.FaultFired["sink-error"]++
				if berr == nil {
					ret = viol("write-error-ignored", "the sink failed after %d of %d bytes (%v) but writing reports success", bad.limit, len(good.got), fail)
				}
			} else if gerr == nil {
				ret = viol("lost-write", "the sink got %d bytes, want %d", len(bad.got), len(good.got))
			}
		}
	})
	k.log(&Event{Op: c.Kind + "/" + c.Mode, Path: fmt.Sprintf("%x", hash64(src, c.OutErr, c.Loop, c.Lock, fmt.Sprint(c.Sizes))), N: c.At})
	st.note(res, c.OutFail)
	if ret != nil {
		return ret
	}
	return res.sane()
}

// complete tells whether data already holds the whole of the document src.
func complete(data, src string) bool {
	return len(data) >= len(strings.TrimRight(src, " \t\r\n"))
}

var _ mcp.Tool
var _ = tools.EditFileHandler
