package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// The reference model: a second, independent implementation of the script
// language, written from its documentation and observable behaviour. It works
// on the harness's own syntax tree.

// X is a script expression: a call (K 'l'), string, number or symbol.
type X struct {
	K string  `json:"k"` // "l" "s" "n" "y"
	S BStr    `json:"s,omitempty"`
	N float64 `json:"n,omitempty"`
	L []X     `json:"l,omitempty"`
}

func xs(s string) X  { return X{K: "s", S: BStr(s)} }
func xn(n float64) X { return X{K: "n", N: n} }
func xi(n int) X     { return X{K: "n", N: float64(n)} }
func xy(s string) X  { return X{K: "y", S: BStr(s)} }
func xc(f string, args ...X) X {
	return X{K: "l", L: append([]X{xy(f)}, args...)}
}

// Script is a program together with the way it is written down.
type Script struct {
	Stmts  []X    `json:"stmts,omitempty"`
	Syntax string `json:"syntax"`           // shell sexp json
	Raw    BStr   `json:"raw,omitempty"`    // used as is when Broken
	Broken bool   `json:"broken,omitempty"` // does not parse
	Sep    int    `json:"sep,omitempty"`    // separator style
	Deep   int    `json:"deep,omitempty"`   // Raw is repeated this often
	Mid    string `json:"mid,omitempty"`    // and followed by this
	Shut   int    `json:"shut,omitempty"`   // and that many closing parentheses
}

func fnum(n float64) string {
	if math.IsInf(n, 1) {
		return "+Inf"
	}
	if math.IsInf(n, -1) {
		return "-Inf"
	}
	if n == math.Trunc(n) && math.Abs(n) < 1e15 {
		return strconv.FormatFloat(n, 'f', -1, 64)
	}
	return strconv.FormatFloat(n, 'g', -1, 64)
}

// Sexp writes an expression in list syntax.
func (x X) Sexp() string {
	switch x.K {
	case "s":
		return strconv.Quote(string(x.S))
	case "n":
		return fnum(x.N)
	case "y":
		return string(x.S)
	}
	var p []string
	for _, e := range x.L {
		p = append(p, e.Sexp())
	}
	return "(" + strings.Join(p, " ") + ")"
}

// Shell writes a call in command syntax.
func (x X) Shell() string {
	if x.K != "l" || len(x.L) == 0 || x.L[0].K == "l" {
		return x.Sexp() // what starts with a parenthesis is no command
	}
	var p []string
	for _, e := range x.L {
		p = append(p, e.Sexp())
	}
	return strings.Join(p, " ")
}

func (x X) JSON(sb *strings.Builder) {
	switch x.K {
	case "s", "y":
		b, _ := json.Marshal(string(x.S))
		sb.Write(b)
	case "n":
		sb.WriteString(fnum(x.N))
	case "l":
		sb.WriteByte('[')
		for i, e := range x.L {
			if i > 0 {
				sb.WriteByte(',')
			}
			e.JSON(sb)
		}
		sb.WriteByte(']')
	}
}

// Text is the script as the program reads it.
func (s *Script) Text() string {
	if s.Broken {
		if s.Deep > 0 {
			return strings.Repeat(string(s.Raw), s.Deep) + s.Mid + strings.Repeat(")", s.Shut)
		}
		return string(s.Raw)
	}
	var sb strings.Builder
	switch s.Syntax {
	case "json":
		sb.WriteByte('[')
		for i, x := range s.Stmts {
			if i > 0 {
				sb.WriteString(", ")
				if s.Sep%2 == 1 {
					sb.WriteByte('\n')
				}
			}
			x.JSON(&sb)
		}
		sb.WriteByte(']')
		return sb.String()
	case "sexp":
		for i, x := range s.Stmts {
			if i > 0 {
				sb.WriteByte('\n')
			}
			sb.WriteString(x.Sexp())
		}
	default:
		for i, x := range s.Stmts {
			if i > 0 {
				switch (s.Sep + i) % 5 {
				case 1:
					sb.WriteString("; ")
				case 2:
					sb.WriteString("\n\n")
				case 3:
					sb.WriteString("\n   ")
				default:
					sb.WriteByte('\n')
				}
			}
			if (s.Sep+i)%7 == 6 {
				sb.WriteString(x.Sexp())
			} else {
				sb.WriteString(x.Shell())
			}
		}
	}
	if s.Sep%3 == 2 {
		sb.WriteByte('\n')
	}
	return sb.String()
}

// JSONStream writes the script as the conversion command reads it: one array
// per command.
func (s *Script) JSONStream() string {
	if s.Broken {
		return string(s.Raw)
	}
	var sb strings.Builder
	for _, x := range s.Stmts {
		x.JSON(&sb)
		sb.WriteByte('\n')
	}
	return sb.String()
}

// MV is a value of the model.
type MV struct {
	K byte // 's' 'n' 'y'
	S string
	N float64
}

// MBuf is the model's editing state.
type MBuf struct {
	T        string
	P, M     int // point and mark, counted from 1
	HasMatch bool
	MS, ME   int  // last match, counted from 1
	Odd      bool // an argument outside the range the model speaks about
}

func NewMBuf(t string) *MBuf { return &MBuf{T: t, P: 1, M: 1} }

var errModel = errors.New("script error")

// maxText bounds how far the model lets a text grow; scripts that exceed it
// are not used.
const maxText = 20 << 20

func (b *MBuf) goTo(p int) {
	b.P = min(max(p, 1), len(b.T)+1)
}

func (b *MBuf) cut(i, j int, with string) {
	b.T = b.T[:i] + with + b.T[j:]
	if len(b.T) > maxText {
		b.Odd = true
	}
}

func (b *MBuf) region() (int, int, bool) {
	i, j := b.M-1, b.P-1
	if i > j {
		i, j = j, i
	}
	i, j = max(i, 0), min(j, len(b.T))
	return i, j, i < j
}

func wordc(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

func (b *MBuf) wordsForward(n int) int {
	i := b.P - 1
	for ; n > 0 && i < len(b.T); n-- {
		for i < len(b.T) && !wordc(b.T[i]) {
			i++
		}
		for i < len(b.T) && wordc(b.T[i]) {
			i++
		}
	}
	return i
}

func (b *MBuf) wordsBack(n int) int {
	i := b.P - 1
	for ; n > 0 && i > 0; n-- {
		for i > 0 && !wordc(b.T[i-1]) {
			i--
		}
		for i > 0 && wordc(b.T[i-1]) {
			i--
		}
	}
	return i
}

// linesFrom returns the offset after n lines counted from offset i.
func (b *MBuf) linesFrom(i, n int) int {
	for ; n > 0 && i < len(b.T); n-- {
		nl := strings.IndexByte(b.T[i:], '\n')
		if nl < 0 {
			return len(b.T)
		}
		i += nl + 1
	}
	return i
}

func (b *MBuf) lineStart(i int) int { return strings.LastIndexByte(b.T[:i], '\n') + 1 }

func (b *MBuf) int(f float64) int {
	if math.IsNaN(f) || math.Abs(f) > 1e15 {
		b.Odd = true
	}
	return int(f)
}

var reCache = map[string]*regexp.Regexp{}

func compile(p string) *regexp.Regexp {
	if re, ok := reCache[p]; ok {
		return re
	}
	re, err := regexp.Compile(p)
	if err != nil {
		re = nil
	}
	if len(reCache) > 5000 {
		clear(reCache)
	}
	reCache[p] = re
	return re
}

var sigs = map[string]string{ // argument kinds; ? optional, * any number
	"insert": "s", "goto-char": "n", "goto-line": "n", "search-forward": "s", "search-backward": "s",
	"re-search-forward": "s", "re-search-backward": "s", "end-of-buffer": "", "beginning-of-buffer": "",
	"set-mark": "", "mark": "", "point": "", "line-number-at-pos": "", "replace-match": "s",
	"delete-region": "", "buffer-substring": "nn", "mark-word": "", "replace-region": "s",
	"region-beginning": "", "region-end": "", "forward-char": "?n", "backward-char": "?n",
	"length": "s", "substring": "sn?n", "string-match": "ss", "beginning-of-line": "", "end-of-line": "",
	"buffer-size": "", "point-max": "", "point-min": "", "current-column": "", "upcase": "s",
	"downcase": "s", "capitalize": "s", "concat": "*s", "set-mark-command": "?n",
	"exchange-point-and-mark": "", "mark-whole-buffer": "", "delete-char": "?n", "delete-backward-char": "?n",
	"forward-word": "?n", "backward-word": "?n", "looking-at": "s", "looking-back": "s", "mark-line": "?n",
	"delete-line": "?n", "kill-line": "?n", "kill-word": "?n", "backward-kill-word": "?n",
	"replace-regexp-in-string": "sss",
}

func argsOK(sig string, args []MV) bool {
	if strings.HasPrefix(sig, "*") {
		for _, a := range args {
			if a.K != sig[1] {
				return false
			}
		}
		return true
	}
	i := 0
	opt := false
	for _, c := range []byte(sig) {
		if c == '?' {
			opt = true
			continue
		}
		if i >= len(args) {
			return opt
		}
		if args[i].K != c {
			return false
		}
		i++
	}
	return i == len(args)
}

// Eval runs one expression.
func (b *MBuf) Eval(x X) (MV, error) {
	switch x.K {
	case "s":
		return MV{K: 's', S: string(x.S)}, nil
	case "n":
		return MV{K: 'n', N: x.N}, nil
	case "y":
		b.Odd = b.Odd || !plainSym(string(x.S))
		return MV{}, errModel
	case "l":
	default:
		b.Odd = true // a case cut down too far
		return MV{}, errModel
	}
	if len(x.L) == 0 || x.L[0].K != "y" {
		return MV{}, errModel
	}
	f := string(x.L[0].S)
	b.Odd = b.Odd || !plainSym(f)
	sig, ok := sigs[f]
	if !ok {
		return MV{}, errModel
	}
	var args []MV
	for _, a := range x.L[1:] {
		v, err := b.Eval(a)
		if err != nil {
			return MV{}, err
		}
		args = append(args, v)
	}
	if !argsOK(sig, args) {
		return MV{}, errModel
	}
	return b.apply(f, args)
}

// plainSym tells whether a symbol is written so that it is read as itself.
func plainSym(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i] | 0x20; !(c >= 'a' && c <= 'z' || i > 0 && (s[i] == '-' || s[i] >= '0' && s[i] <= '9')) {
			return false
		}
	}
	return s != ""
}

var mEmpty = MV{K: 's'}

func mnum(n int) (MV, error) { return MV{K: 'n', N: float64(n)}, nil }
func mstr(s string) (MV, error) {
	return MV{K: 's', S: s}, nil
}
func mbool(t bool) (MV, error) {
	if t {
		return MV{K: 'y', S: "t"}, nil
	}
	return MV{K: 'y', S: "nil"}, nil
}

func (b *MBuf) found(i, j int) (MV, error) {
	b.goTo(j + 1)
	b.HasMatch = j > i
	b.MS, b.ME = i+1, j+1
	return mEmpty, nil
}

func (b *MBuf) apply(f string, a []MV) (MV, error) {
	count := 1
	if strings.HasPrefix(sigs[f], "?n") && len(a) == 1 {
		count = b.int(a[0].N)
	}
	at := b.P - 1
	switch f {
	case "insert":
		b.cut(at, at, a[0].S)
		b.P += len(a[0].S)
	case "goto-char":
		b.goTo(b.int(a[0].N))
	case "goto-line":
		n := b.int(a[0].N)
		b.goTo(b.gotoLine(n) + 1)
	case "beginning-of-buffer":
		b.goTo(1)
	case "end-of-buffer":
		b.goTo(len(b.T) + 1)
	case "beginning-of-line":
		// at the very end the last character's line counts
		i := min(at, len(b.T)-1)
		if i < 0 {
			b.goTo(i + 1)
			break
		}
		b.goTo(b.lineStart(i) + 1)
	case "end-of-line":
		if nl := strings.IndexByte(b.T[at:], '\n'); nl >= 0 {
			b.goTo(at + nl + 1)
		} else {
			b.goTo(len(b.T) + 1)
		}
	case "forward-char":
		b.goTo(b.P + count)
	case "backward-char":
		b.goTo(b.P - count)
	case "forward-word":
		b.goTo(b.wordsForward(count) + 1)
	case "backward-word":
		b.goTo(b.wordsBack(count) + 1)
	case "search-forward", "re-search-forward":
		if at >= len(b.T) {
			return MV{}, errModel
		}
		if f == "search-forward" {
			i := strings.Index(b.T[at:], a[0].S)
			if i < 0 {
				return MV{}, errModel
			}
			return b.found(at+i, at+i+len(a[0].S))
		}
		re := compile(a[0].S)
		if re == nil {
			return MV{}, errModel
		}
		m := re.FindStringIndex(b.T[at:])
		if m == nil {
			return MV{}, errModel
		}
		return b.found(at+m[0], at+m[1])
	case "search-backward":
		i := strings.LastIndex(b.T[:at], a[0].S)
		if i < 0 {
			return MV{}, errModel
		}
		return b.found(i, i+len(a[0].S))
	case "re-search-backward":
		re := compile(a[0].S)
		if re == nil {
			return MV{}, errModel
		}
		all := re.FindAllStringIndex(b.T[:at], -1)
		if len(all) == 0 {
			return MV{}, errModel
		}
		m := all[len(all)-1]
		return b.found(m[0], m[1])
	case "replace-match":
		i, j := b.MS-1, b.ME-1
		if !b.HasMatch || i < 0 || j > len(b.T) || i >= j {
			return MV{}, errModel
		}
		b.cut(i, j, a[0].S)
		b.goTo(i + len(a[0].S) + 1)
	case "set-mark":
		b.M = b.P
	case "set-mark-command":
		b.M = b.P
		if len(a) == 1 {
			b.M = count
		}
	case "mark":
		return mnum(b.M)
	case "point":
		return mnum(b.P)
	case "point-min":
		return mnum(1)
	case "point-max":
		return mnum(len(b.T) + 1)
	case "buffer-size":
		return mnum(len(b.T))
	case "line-number-at-pos":
		return mnum(1 + strings.Count(b.T[:at], "\n"))
	case "current-column":
		// characters of the line up to and including the one at point
		i := min(at, len(b.T)-1)
		return mnum(i - strings.LastIndexByte(b.T[:i+1], '\n'))
	case "region-beginning":
		return mnum(min(b.M, b.P))
	case "region-end":
		return mnum(max(b.M, b.P))
	case "exchange-point-and-mark":
		p := b.P
		b.goTo(b.M)
		b.M = p
	case "mark-whole-buffer":
		b.M = 1
		b.goTo(len(b.T) + 1)
	case "mark-word":
		if at < len(b.T) {
			i, j := at, at
			for i > 0 && wordc(b.T[i-1]) {
				i--
			}
			for j < len(b.T) && wordc(b.T[j]) {
				j++
			}
			b.M = i + 1
			b.goTo(j + 1)
		}
	case "mark-line":
		b.M = b.lineStart(at) + 1
		b.goTo(b.linesFrom(at, count) + 1)
	case "delete-line":
		i, j := b.lineStart(at), b.linesFrom(at, count)
		b.cut(i, j, "")
		b.goTo(i + 1)
	case "kill-line":
		if at >= len(b.T) {
			break
		}
		if count != 1 {
			b.cut(at, b.linesFrom(at, count), "")
			break
		}
		// the character at point and the newline stay
		j := len(b.T)
		if nl := strings.IndexByte(b.T[at+1:], '\n'); nl >= 0 {
			j = at + 1 + nl
		}
		b.cut(at+1, j, "")
	case "kill-word":
		b.cut(at, b.wordsForward(count), "")
	case "backward-kill-word":
		i := b.wordsBack(count)
		b.cut(i, min(at+1, len(b.T)), "")
		b.goTo(i + 1)
	case "delete-char":
		if at < len(b.T) && count > 0 {
			b.cut(at, at+min(count, len(b.T)-at), "")
		}
	case "delete-backward-char":
		if i := max(0, at-count); i < at {
			b.cut(i, at, "")
			b.goTo(i + 1)
		}
	case "delete-region":
		if i, j, ok := b.region(); ok {
			b.cut(i, j, "")
			b.goTo(i + 1)
		}
	case "replace-region":
		if i, j, ok := b.region(); ok {
			b.cut(i, j, a[0].S)
			b.goTo(i + len(a[0].S) + 1)
		}
	case "buffer-substring":
		i, j := b.int(a[0].N), b.int(a[1].N)
		if j == -1 {
			j = len(b.T) + 1
		}
		i, j = max(i-1, 0), min(j-1, len(b.T))
		if i >= j {
			return mEmpty, nil
		}
		return mstr(b.T[i:j])
	case "length":
		return mnum(len(a[0].S))
	case "substring":
		i, j := b.int(a[1].N), len(a[0].S)+1
		if len(a) == 3 {
			j = b.int(a[2].N)
		}
		i, j = max(i-1, 0), min(j-1, len(a[0].S))
		if i > j {
			return mEmpty, nil
		}
		return mstr(a[0].S[i:j])
	case "string-match":
		i := -1
		if re := compile(a[0].S); re == nil {
			i = strings.Index(a[1].S, a[0].S)
		} else if m := re.FindStringIndex(a[1].S); m != nil {
			i = m[0]
		}
		if i < 0 {
			return mbool(false)
		}
		return mnum(i)
	case "looking-at":
		if at >= len(b.T) {
			return mbool(false)
		}
		if re := compile(a[0].S); re != nil {
			m := re.FindStringIndex(b.T[at:])
			return mbool(m != nil && m[0] == 0)
		}
		return mbool(strings.HasPrefix(b.T[at:], a[0].S))
	case "looking-back":
		if at <= 0 {
			return mbool(false)
		}
		if re := compile(a[0].S); re != nil {
			m := re.FindStringIndex(b.T[:at])
			return mbool(m != nil && m[1] == at)
		}
		return mbool(strings.HasSuffix(b.T[:at], a[0].S))
	case "upcase":
		return mstr(strings.ToUpper(a[0].S))
	case "downcase":
		return mstr(strings.ToLower(a[0].S))
	case "capitalize":
		if a[0].S == "" {
			return mEmpty, nil
		}
		// the first byte decides; it is treated as a character of its own
		return mstr(strings.ToUpper(string(rune(a[0].S[0]))) + strings.ToLower(a[0].S[1:]))
	case "concat":
		var sb strings.Builder
		for _, v := range a {
			sb.WriteString(v.S)
		}
		return mstr(sb.String())
	case "replace-regexp-in-string":
		re := compile(a[0].S)
		if re == nil {
			return MV{}, errModel
		}
		return mstr(re.ReplaceAllString(a[2].S, a[1].S))
	}
	return mEmpty, nil
}

func (b *MBuf) gotoLine(n int) int {
	i := 0
	for ; n > 1; n-- {
		nl := strings.IndexByte(b.T[i:], '\n')
		if nl < 0 {
			break
		}
		i += nl + 1
	}
	return i
}

// Outcome is what a script does to a text according to the model.
type Outcome struct {
	Text string
	Val  MV
	OK   bool
	Odd  bool
}

// Apply runs a whole script on a text.
func (s *Script) Apply(text string) Outcome {
	if s.Broken {
		return Outcome{Text: text}
	}
	b := NewMBuf(text)
	v := mEmpty
	for _, x := range s.Stmts {
		var err error
		v, err = b.Eval(x)
		if err != nil {
			return Outcome{Text: text, Odd: b.Odd}
		}
		if len(b.T) > maxText {
			return Outcome{Text: text, Odd: true}
		}
	}
	return Outcome{Text: b.T, Val: v, OK: true, Odd: b.Odd}
}

// SexpVal and friends render a value the way the program prints results.
func (v MV) SexpVal() string {
	switch v.K {
	case 's':
		return strconv.Quote(v.S)
	case 'n':
		if v.N == math.Trunc(v.N) && math.Abs(v.N) < 1e15 {
			return strconv.FormatFloat(v.N, 'f', 0, 64)
		}
		return fmt.Sprintf("%g", v.N)
	}
	return v.S
}

// JSONVal renders a value as a JSON line.
func (v MV) JSONVal() string {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	if v.K == 'n' {
		e.Encode(v.N)
	} else {
		e.Encode(v.S)
	}
	return sb.String()
}
