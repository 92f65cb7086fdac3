package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Generators of texts and scripts. All randomness comes from the RNG given.

var words = []string{"alpha", "beta", "gamma", "delta", "foo", "bar", "KEY", "x", "todo", "end", "value42", "ünï", "日本", "naïve", "func", "return"}

func genLine(r *RNG) string {
	var p []string
	for n := r.N(7); n > 0; n-- {
		p = append(p, pick(r, words))
	}
	s := strings.Join(p, pick(r, []string{" ", " ", ", ", "  ", "\t", "-", "."}))
	if r.P(10) {
		s = "  " + s
	}
	return s
}

// genText makes file contents; size 0 small, 1 medium, 2 may be large.
func genText(r *RNG, size int) string {
	switch c := r.N(100); {
	case c < 6:
		return ""
	case c < 10:
		return pick(r, []string{"\n", "a", "\x00", "\n\n\n", "no newline", "\xff\xfe", "\r\n"})
	case c < 16 && size > 0:
		b := make([]byte, r.In(1, 300))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	case c < 34 && size > 1:
		n := pick(r, []int{511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072})
		if n > 33000 && r.P(60) {
			n = r.In(1000, 9000)
		}
		return sized(r, n)
	}
	var sb strings.Builder
	if r.N(60) == 0 {
		sb.WriteString("\ufeff")
	}
	eol := "\n"
	if r.P(8) {
		eol = "\r\n"
	}
	n := r.In(1, 9)
	if size > 0 && r.P(25) {
		n = r.In(10, 60)
	}
	for ; n > 0; n-- {
		sb.WriteString(genLine(r))
		if n > 1 || !r.P(25) {
			sb.WriteString(eol)
		}
	}
	return sb.String()
}

// sized makes a text of exactly n bytes whose parts are all different, so
// that lost, repeated or reordered blocks show.
func sized(r *RNG, n int) string {
	var sb strings.Builder
	sb.Grow(n + 64)
	sb.WriteString(genLine(r))
	sb.WriteByte('\n')
	long := r.P(20)
	huge := long && r.P(20)
	for i := 0; sb.Len() < n; i++ {
		fmt.Fprintf(&sb, "%s %06d %s", pick(r, words), i, pick(r, words))
		if !long || !huge && r.P(2) {
			sb.WriteByte('\n')
		}
	}
	return sb.String()[:n]
}

var fillBuf [2][]byte

// filler makes n bytes whose blocks are all different.
func filler(n int) []byte {
	long := 0
	if n >= 100_000 && n%4 == 0 {
		long = 1 // all in one line
	}
	buf := &fillBuf[long]
	if n > cap(*buf) {
		t := make([]byte, 0, n+64)
		for i := 0; len(t) < n; i++ {
			t = strconv.AppendInt(t, int64(i)*7919%1000003, 36)
			t = append(t, ' ')
			t = append(t, words[(i*i/3)%len(words)]...)
			if i%5 == 4 && long == 0 {
				t = append(t, '\n')
			} else {
				t = append(t, ' ')
			}
		}
		*buf = t
	}
	return (*buf)[:n:n]
}

// someOf picks a piece of text that occurs at or after (before) the point.
func someOf(r *RNG, t string) string {
	if t == "" {
		return pick(r, words)
	}
	i := r.N(len(t))
	l := min(r.In(1, 8), len(t)-i)
	if r.P(50) { // prefer a whole word
		for l > 1 && !wordc(t[i]) {
			i++
			l--
		}
		for i+l < len(t) && l < 12 && wordc(t[i+l-1]) && wordc(t[i+l]) {
			l++
		}
	}
	return t[i : i+l]
}

var regexes = []string{"[a-z]+", "[0-9]+", "\\bfoo\\b", "(alpha|beta)", "^.", "$", "\\s+", "[A-Z]{2,}", ".", "x*", "(?m)^.*$", "K.Y", "\\w+\\W", "", "(?m)^", "\\b", "(a|b)*", "[", "(", "a{2,1}", "*"}
var inserts = []string{"X", "NEW", "hello\n", "", "\n", "a;b", "(", "\"q\"", "back\\slash", "tab\t", "日本", "; drop", "end)", "$1", "multi\nline\n", "'", "#", "é"}

type genOpt struct {
	json bool // must be writable as JSON
	safe bool // every statement succeeds on the text
	wild bool // absurd arguments
	long bool // many statements
	big  bool // some long string arguments
}

// genStr makes a string argument.
func genStr(r *RNG, b *MBuf, o genOpt) X {
	var s string
	switch c := r.N(100); {
	case c < 55:
		s = pick(r, inserts)
	case c < 75:
		s = pick(r, words)
	case c < 85:
		s = someOf(r, b.T)
	case c < 93:
		return genStrCall(r, b, o)
	case c < 97 && o.big:
		s = sized(r, r.In(300, 6000))
		if r.N(40) == 0 {
			s = sized(r, pick(r, []int{65530, 66000, 70000, 132000}))
		}
	default:
		s = genLine(r)
	}
	if o.json && !utf8.ValidString(s) {
		s = "valid"
	}
	return xs(s)
}

func genStrCall(r *RNG, b *MBuf, o genOpt) X {
	lit := func() X {
		s := pick(r, words)
		return xs(s)
	}
	switch r.N(8) {
	case 0:
		return xc("upcase", lit())
	case 1:
		return xc("downcase", lit())
	case 2:
		return xc("capitalize", lit())
	case 3:
		return xc("concat", lit(), genStr(r, b, o))
	case 4:
		i := r.In(1, len(b.T)+1)
		return xc("buffer-substring", xi(i), xi(min(len(b.T)+1, i+r.N(9))))
	case 5:
		return xc("substring", lit(), xi(r.In(1, 4)))
	case 6:
		return xc("replace-regexp-in-string", xs(pick(r, regexes[:17])), xs(pick(r, []string{"<$0>", "", "Z", "${1}q"})), pick(r, []X{lit(), lit(), xc("concat", lit(), xs("\n"), lit()), xs("")}))
	}
	return xc("concat", xs("<"), lit(), xs(">"))
}

func genNum(r *RNG, b *MBuf, o genOpt) X {
	if o.wild && r.P(35) {
		return xn(pick(r, []float64{-1, 0, -1e6, 1e6, 1e9, -1e9, 1e18, -1e18, 9.3e18, -9.3e18, 1e308, -1e308, 0.5, -0.5, 2.7, 1e12, 4294967296, 9223372036854775807}))
	}
	switch c := r.N(100); {
	case c < 50:
		return xi(r.In(1, 4))
	case c < 75:
		return xi(r.In(1, max(1, len(b.T)+1)))
	case c < 80:
		return xi(r.In(-3, 0))
	case c < 88:
		return xc(pick(r, []string{"point", "mark", "point-max", "point-min", "buffer-size", "region-beginning", "region-end", "line-number-at-pos", "current-column"}))
	case c < 92:
		return xc("length", xs(pick(r, words)))
	case c < 95:
		return xn(float64(r.In(1, 5)) + 0.5)
	}
	return xi(r.In(5, 60))
}

var countCmds = []string{"forward-char", "backward-char", "forward-word", "backward-word", "delete-char", "delete-backward-char", "mark-line", "delete-line", "kill-line", "kill-word", "backward-kill-word", "set-mark-command"}
var plainCmds = []string{"beginning-of-buffer", "end-of-buffer", "beginning-of-line", "end-of-line", "set-mark", "exchange-point-and-mark", "mark-whole-buffer", "mark-word", "delete-region"}
var askCmds = []string{"point", "mark", "buffer-size", "point-max", "point-min", "current-column", "line-number-at-pos", "region-beginning", "region-end"}

// genStmt proposes one statement for the state b.
func genStmt(r *RNG, b *MBuf, o genOpt) X {
	switch c := r.N(100); {
	case c < 18:
		return xc("insert", genStr(r, b, o))
	case c < 30:
		return xc("search-forward", genNeedle(r, b.T[b.P-1:], b, o))
	case c < 35:
		return xc("search-backward", genNeedle(r, b.T[:b.P-1], b, o))
	case c < 40:
		return xc("re-search-forward", xs(pick(r, regexes)))
	case c < 43:
		return xc("re-search-backward", xs(pick(r, regexes)))
	case c < 53:
		return xc("replace-match", genStr(r, b, o))
	case c < 57:
		return xc("replace-region", genStr(r, b, o))
	case c < 61:
		return xc("goto-char", genNum(r, b, o))
	case c < 65:
		return xc("goto-line", genNum(r, b, o))
	case c < 77:
		f := pick(r, countCmds)
		if r.P(50) {
			return xc(f)
		}
		return xc(f, genNum(r, b, o))
	case c < 91:
		return xc(pick(r, plainCmds))
	case c < 95:
		return xc(pick(r, askCmds))
	case c < 97:
		return xc(pick(r, []string{"looking-at", "looking-back"}), xs(pick(r, regexes)))
	case c < 98:
		return xc("string-match", xs(pick(r, regexes)), genStr(r, b, o))
	}
	return genStrCall(r, b, o)
}

func genNeedle(r *RNG, t string, b *MBuf, o genOpt) X {
	s := someOf(r, t)
	if o.json && !utf8.ValidString(s) {
		s = pick(r, words)
	}
	return xs(s)
}

// genBad proposes a statement that always fails.
func genBad(r *RNG) X {
	if r.P(15) { // a command misspelt
		f := pick(r, pick(r, [][]string{plainCmds, countCmds, askCmds, nFuncs, {"insert", "search-forward", "replace-match", "upcase"}}))
		i := r.N(len(f))
		switch r.N(4) {
		case 0:
			f = f[:i] + f[i+1:]
		case 1:
			f = f[:i] + "x" + f[i:]
		case 2:
			f += pick(r, []string{"s", "-char", "-", "e"})
		case 3:
			f = strings.ToUpper(f[:i+1]) + f[i+1:]
		}
		if _, known := sigs[f]; !known && f != "" {
			return xc(f, pick(r, []X{xs("a"), xi(1)}))
		}
	}
	return pick(r, []X{
		xc("search-forward", xs("NO-SUCH-TEXT-ANYWHERE")),
		xc("search-backward", xs("NO-SUCH-TEXT-ANYWHERE")),
		xc("no-such-command", xi(1)),
		xc("insert"),
		xc("insert", xi(3)),
		xc("goto-char", xs("one")),
		xc("re-search-forward", xs("(unclosed")),
		xc("insert", xs("a"), xs("b")),
		xc("upcase", xi(1)),
		xc("insert", xc("concat", xs("a"), xi(1))),
		xc("point", xi(1)),
	})
}

// genStmts makes a program tuned to text: most searches hit.
func genStmts(r *RNG, text string, o genOpt) []X {
	b := NewMBuf(text)
	n := r.In(1, 7)
	if o.long && r.P(15) {
		n = r.In(20, 120)
		if r.N(60) == 0 {
			n = pick(r, []int{260, 300, 513, 1030, 1500})
		}
	}
	var out []X
	limit := 4*len(text) + 20000
	var queue []X
	for tries := 0; len(out) < n && tries < n*6; tries++ {
		if len(queue) == 0 && r.N(14) == 0 {
			queue = phrase(r, b, o)
			n = max(n, len(out)+len(queue))
		}
		var x X
		if len(queue) > 0 {
			x, queue = queue[0], queue[1:]
		} else {
			x = genStmt(r, b, o)
		}
		t := *b
		_, err := t.Eval(x)
		if len(t.T) > limit {
			continue
		}
		if err != nil {
			if o.safe || !r.P(4) && !(o.wild && r.P(30)) {
				continue
			}
			out = append(out, x)
			break
		}
		if t.Odd && !o.wild {
			continue
		}
		*b = t
		out = append(out, x)
	}
	if len(out) == 0 {
		out = append(out, xc("insert", xs("X")))
	}
	return out
}

// phrase is a few statements that belong together: work between a search and
// the use of what it found, or between setting a mark and using the region.
func phrase(r *RNG, b *MBuf, o genOpt) (out []X) {
	mark := r.P(35)
	if mark {
		out = append(out, xc("goto-char", xi(r.In(1, len(b.T)+1))), xc(pick(r, []string{"set-mark", "mark-word", "mark-line", "mark-whole-buffer"})))
	} else {
		if r.P(30) {
			out = append(out, xc("end-of-buffer"), xc("search-backward", genNeedle(r, b.T, b, o)))
		} else {
			out = append(out, xc("goto-char", xi(1)), xc("search-forward", genNeedle(r, b.T, b, o)))
		}
	}
	for i := r.N(3); i > 0; i-- {
		switch r.N(9) {
		case 0:
			out = append(out, xc("goto-char", xi(r.In(1, len(b.T)+1))), xc("kill-line"))
		case 1:
			out = append(out, xc("goto-char", xi(r.In(1, len(b.T)+1))), xc("delete-char", xi(r.In(1, 9))))
		case 2:
			out = append(out, xc("delete-backward-char", xi(r.In(1, 5))))
		case 3:
			out = append(out, xc("delete-line"))
		case 4:
			out = append(out, xc("beginning-of-line"), xc("kill-line", xi(r.In(1, 4))))
		case 5:
			out = append(out, xc("backward-kill-word"))
		case 6:
			out = append(out, xc("mark-whole-buffer"), xc("delete-region"))
		case 7:
			out = append(out, xc("goto-char", xi(r.In(1, len(b.T)+1))), xc("insert", xs(pick(r, words))))
		case 8:
			out = append(out, xc(pick(r, countCmds), xi(r.In(1, 6))))
		}
	}
	if mark {
		return append(out, pick(r, []X{xc("replace-region", xs(pick(r, words))), xc("delete-region"), xc("exchange-point-and-mark"), xc("region-end"), xc("insert", xc("concat", xs("<"), xs(pick(r, words))))}))
	}
	return append(out, xc("replace-match", xs(pick(r, words))))
}

// breakJSON spoils a JSON script somewhere.
func breakJSON(r *RNG, stmts []X) string {
	sc := Script{Syntax: "json", Stmts: stmts}
	t := sc.Text()
	var v []any
	if json.Unmarshal([]byte(t), &v) != nil || len(v) == 0 {
		return "[["
	}
	bad := pick(r, []any{true, nil, map[string]any{}, "insert", 5.0, []any{5.0}, []any{true}, []any{[]any{}}, map[string]any{"insert": "x"}})
	i := r.N(len(v) + 1)
	if i < len(v) && r.P(40) { // inside a call
		if l, ok := v[i].([]any); ok && len(l) > 0 {
			w := pick(r, []any{true, nil, map[string]any{}, map[string]any{"a": "b"}})
			j := r.N(len(l) + 1)
			v[i] = append(l[:j:j], append([]any{w}, l[j:]...)...)
			out, _ := json.Marshal(v)
			return string(out)
		}
	}
	v = append(v[:i:i], append([]any{bad}, v[i:]...)...)
	out, _ := json.Marshal(v)
	return string(out)
}

var brokenShell = []string{"insert \"abc", "(insert \"a\"", ")", "insert )", "(insert \"a\" (upcase \"b\")", "insert \"a\\q\"", "goto-char 1; insert \"x", "(((", "insert \"ok\"\ninsert \"bad\n"}
var brokenJSON = []string{"[[\"insert\"", "{}", "[1]", "[\"insert\", \"x\"]", "[[1,2]]", "[[\"insert\", null]]", "[[\"insert\", true]]", "not json", "[[\"insert\",\"x\"]] trailing", "[[\"insert\", {}]]", ""}

// genScript makes a script for text.
func genScript(r *RNG, text string, o genOpt, failPct int) Script {
	s := Script{Syntax: pick(r, []string{"shell", "shell", "sexp", "json"}), Sep: r.N(1000)}
	return genScriptIn(r, text, o, failPct, s)
}

func genScriptIn(r *RNG, text string, o genOpt, failPct int, s Script) Script {
	o.json = s.Syntax == "json"
	if r.P(failPct) {
		if r.P(35) {
			s.Broken = true
			if o.json && r.P(60) {
				s.Raw = BStr(breakJSON(r, genStmts(r, text, o)))
			} else if o.json {
				s.Raw = BStr(pick(r, brokenJSON))
			} else {
				s.Raw = BStr(pick(r, brokenShell))
			}
			return s
		}
		s.Stmts = genStmts(r, text, o)
		if r.P(25) { // needs a search that only earlier work could have left behind
			s.Stmts = append([]X{xc("replace-match", xs(pick(r, words)))}, s.Stmts...)
			return s
		}
		bad := genBad(r)
		i := r.N(len(s.Stmts) + 1)
		s.Stmts = append(s.Stmts[:i:i], append([]X{bad}, s.Stmts[i:]...)...)
		return s
	}
	o.safe = true
	s.Stmts = genStmts(r, text, o)
	return s
}

var fileNames = []string{"a.txt", "b.txt", "notes", "sub/c.md", "long name.txt", "a.txt.old", "deep/er/d.go", "ä.txt", "x", "data.json", "-", "z.bak", "a", "sub/a.txt", "other/a.txt", "deep/er/x", "A.txt", "100%d%s.txt", "[ab].txt", "a*?b", ".hidden", "notes~", "it's", "sub/b.txt", "$HOME", " pad ", "c,d.txt", "x ", "Tab\t.txt"}

// pickNames chooses n distinct file names.
func pickNames(r *RNG, n int) []string {
	p := append([]string(nil), fileNames...)
	for i := range p {
		j := i + r.N(len(p)-i)
		p[i], p[j] = p[j], p[i]
	}
	var out []string
	for _, s := range p {
		if s == "-" {
			continue
		}
		out = append(out, s)
		if len(out) == n {
			break
		}
	}
	for len(out) < n {
		out = append(out, fmt.Sprintf("f%03d.txt", len(out)))
	}
	return out
}

// chunks splits s at random places.
func chunks(r *RNG, s string, mean int) []BStr {
	var out []BStr
	for s != "" {
		n := min(len(s), r.In(1, 2*mean))
		out = append(out, BStr(s[:n]))
		s = s[n:]
	}
	return out
}
