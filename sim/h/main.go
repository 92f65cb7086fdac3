package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"
)

// The worker: explores seeds of one property, shrinks what fails, or replays
// one recorded case. It is started by /verif/check.

type prop struct {
	gen  func(r *RNG) []*Case
	eval func(c *Case) *Viol
}

var props = map[string]prop{
	"C01": {genC01, evalC01},
	"C02": {genC02, evalC02},
	"C03": {genC03, evalC03},
	"C04": {genC04, evalC04},
	"C05": {genC05, evalC05},
	"C06": {genC06, evalC06},
	"C07": {genC07, evalC07},
	"C08": {genC08, evalC08},
	"C09": {genC09, evalC09},
	"C10": {genC10, evalC10},
	"C11": {genC11, evalC11},
	"C12": {genC12, evalC12},
	"C13": {genC13, evalC13},
	"C14": {genC14, evalC14},
	"C15": {genC15, evalC15},
	"C16": {genC16, evalC16},
	"C17": {genC17, evalC17},
	"C18": {genC18, evalC18},
	"C19": {genC19, evalC19},
	"C20": {genC20, evalC20},
	"C27": {genC27, evalC27},
	"C28": {genC28, evalC28},
	"C29": {genC29, evalC29},
	"C30": {genC30, evalC30},
}

type config struct {
	Prop   string   `json:"prop"`
	Mode   string   `json:"mode"` // explore, replay, show
	Base   uint64   `json:"base"`
	First  int      `json:"first"`
	Stride int      `json:"stride"`
	Count  int      `json:"count"` // seeds in all; this worker takes First, First+Stride, ...
	Secs   float64  `json:"secs"`
	Case   string   `json:"case"` // replay: file holding the case
	Known  []string `json:"known"`
	Out    string   `json:"out"`
	Max    int      `json:"max"` // violations after which to stop
	NoShr  bool     `json:"noshrink"`
	Log    string   `json:"log"` // explore: write each case before running it
}

type found struct {
	Index  int             `json:"index"`
	Viol   *Viol           `json:"viol"`
	Digest string          `json:"digest"`
	Case   json.RawMessage `json:"case"`
	Orig   json.RawMessage `json:"orig,omitempty"`
	OrigV  *Viol           `json:"origviol,omitempty"`
	OrigD  string          `json:"origdigest,omitempty"`
	Tries  int             `json:"tries"`
}

type report struct {
	Seeds    int               `json:"seeds"`
	Cases    int               `json:"cases"`
	Runs     int               `json:"runs"`
	Evals    int               `json:"evals"`
	Steps    int64             `json:"steps"`
	MaxStep  int64             `json:"max_steps"`
	Sys      int64             `json:"sys"`
	SimNs    int64             `json:"simns"`
	Switches int               `json:"switches"`
	Faults   map[string]int    `json:"faults"`
	Known    map[string]int    `json:"known"`
	KnownEx  map[string]*found `json:"known_ex"`
	Found    []*found          `json:"found"`
	Samples  []json.RawMessage `json:"samples"`
	Trouble  string            `json:"trouble,omitempty"`
	Next     int               `json:"next"` // first seed index not done
	Capped   bool              `json:"capped"`
	Secs     float64           `json:"secs"`
}

// stats gathers what the runs of this worker covered.
type stats struct {
	evals  int
	faults map[string]int
	hist   map[uint64]bool // histories of nontrivial runs
	sw     int
	digest uint64
}

var st = stats{faults: map[string]int{}, hist: map[uint64]bool{}}

// note records one finished run of the program.
func (s *stats) note(res *Result, nontrivial bool) {
	s.evals++
	s.sw += res.Switches
	k := res.K
	for f, n := range k.FaultFired {
		s.faults[f] += n
	}
	h := fnv.New64a()
	for i := range k.Log {
		e := &k.Log[i]
		fmt.Fprintf(h, "%s|%s|%d|%s|%s;", e.Op, e.Path, e.N, e.Err, e.Fault)
	}
	fmt.Fprintf(h, "%d|%s|%x|%v", res.Exit, res.Killed, res.SchedH, res.Panic != "")
	h.Write(k.Stdout)
	sum := h.Sum64()
	if nontrivial {
		s.hist[sum] = true
	}
}

// mixDigest folds a finished run into the digest of the case.
func (s *stats) mixDigest(res *Result) {
	h := fnv.New64a()
	fmt.Fprint(h, s.digest, res.K.Digest(), res.Exit, res.Killed, res.Panic, res.Stuck, res.Budget, res.SchedH, res.Switches)
	s.digest = h.Sum64()
	if os.Getenv("VERIF_DUMP") != "" {
		fmt.Printf("run k=%x exit=%d killed=%q sched=%x sw=%d steps=%d sys=%d\n", res.K.Digest(), res.Exit, res.Killed, res.SchedH, res.Switches, res.Steps, len(res.K.Log))
	}
}

func evalCase(p prop, c *Case) (v *Viol, digest string, trouble string) {
	st.digest = 0
	defer func() {
		if e := recover(); e != nil {
			trouble = fmt.Sprintf("harness panic: %v\n%s", e, debug.Stack())
		}
		digest = fmt.Sprintf("%016x", st.digest)
	}()
	v = p.eval(c)
	return
}

func seedOf(cfg *config, i int) uint64 {
	return hash64(cfg.Prop, cfg.Base, i) >> 11 // exact as a JSON number
}

func casesOf(p prop, cfg *config, i int) []*Case {
	s := seedOf(cfg, i)
	cs := p.gen(NewRNG(s))
	for _, c := range cs {
		c.Prop, c.Seed = cfg.Prop, s
	}
	return cs
}

// trip makes sure the case is exactly what its JSON says.
func trip(c *Case) (*Case, json.RawMessage) {
	d, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var x Case
	if err := json.Unmarshal(d, &x); err != nil {
		panic(err)
	}
	return &x, d
}

func TestMain(m *testing.M) {
	path := os.Getenv("VERIF_WORK")
	if path == "" {
		fmt.Println("VERIF_WORK is not set")
		os.Exit(3)
	}
	d, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var cfg config
	if err := json.Unmarshal(d, &cfg); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	p, ok := props[cfg.Prop]
	if !ok {
		fmt.Println("no such property", cfg.Prop)
		os.Exit(3)
	}
	runtime.MemProfileRate = 0
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetTraceback("all")
	installSeams()
	rep := &report{Faults: map[string]int{}, Known: map[string]int{}, KnownEx: map[string]*found{}}
	start := time.Now()
	switch cfg.Mode {
	case "explore":
		explore(p, &cfg, rep, start)
	case "replay":
		replay(p, &cfg, rep)
	case "digests":
		digests(p, &cfg)
	case "show":
		for i := cfg.First; i < cfg.Count; i += cfg.Stride {
			for _, c := range casesOf(p, &cfg, i) {
				_, d := trip(c)
				fmt.Println(string(d))
			}
		}
	}
	rep.Secs = time.Since(start).Seconds()
	rep.Runs, rep.Steps, rep.MaxStep, rep.Sys, rep.SimNs = nRuns, nSteps, maxSteps, nSys, simNs
	rep.Evals, rep.Faults, rep.Switches = st.evals, st.faults, st.sw
	out, err := json.Marshal(rep)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	hs := make([]uint64, 0, len(st.hist))
	for h := range st.hist {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	hb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
	}
	if os.WriteFile(cfg.Out+".hist", hb, 0o644) != nil || os.WriteFile(cfg.Out, out, 0o644) != nil {
		fmt.Println("cannot write the report")
		os.Exit(3)
	}
	os.Exit(0)
}

// digests prints what each case came to: the same lines in whatever order they are run.
func digests(p prop, cfg *config) {
	for i := cfg.First; i != cfg.Count; i += cfg.Stride {
		for j, c := range casesOf(p, cfg, i) {
			c, _ := trip(c)
			v, dig, trouble := evalCase(p, c)
			kind := ""
			if v != nil {
				kind = v.Kind
			}
			fmt.Println("digest", i, j, dig, kind, trouble != "")
		}
	}
}

func explore(p prop, cfg *config, rep *report, start time.Time) {
	var prog *os.File
	if cfg.Out != "" {
		prog, _ = os.Create(cfg.Out + ".at")
	}
	known := map[string]bool{}
	for _, k := range cfg.Known {
		known[k] = true
	}
	kinds := map[string]int{}
	for i := cfg.First; i < cfg.Count; i += cfg.Stride {
		rep.Next = i
		if cfg.Secs > 0 && time.Since(start).Seconds() > cfg.Secs {
			rep.Capped = true
			return
		}
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%12d\n", i)), 0)
		}
		for _, c := range casesOf(p, cfg, i) {
			c, raw := trip(c)
			if cfg.Log != "" {
				os.WriteFile(cfg.Log, raw, 0o644)
			}
			rep.Cases++
			if len(rep.Samples) < 3 && len(raw) < 1500 && rep.Cases%7 == 1 {
				rep.Samples = append(rep.Samples, raw)
			}
			v, dig, trouble := evalCase(p, c)
			if trouble == "" && v != nil && v.Kind == "UNSUPPORTED" {
				trouble = v.Msg
			}
			if trouble != "" {
				rep.Trouble = fmt.Sprintf("seed %d: %s\ncase: %s", i, trouble, raw)
				return
			}
			if v == nil {
				continue
			}
			f := &found{Index: i, Viol: v, Digest: dig, Case: raw}
			if v.Known != "" && known[v.Known] {
				rep.Known[v.Known]++
				if rep.KnownEx[v.Known] == nil || len(rep.KnownEx[v.Known].Case) > len(raw) {
					rep.KnownEx[v.Known] = f
				}
				continue
			}
			if kinds[v.Kind] >= 1 {
				continue
			}
			kinds[v.Kind]++
			if !cfg.NoShr {
				f.shrink(p, c)
			}
			rep.Found = append(rep.Found, f)
			if len(rep.Found) >= max(1, cfg.Max) {
				rep.Next = i + cfg.Stride
				return
			}
		}
		rep.Seeds++
		rep.Next = i + cfg.Stride
	}
}

func replay(p prop, cfg *config, rep *report) {
	d, err := os.ReadFile(cfg.Case)
	if err != nil {
		rep.Trouble = err.Error()
		return
	}
	var c Case
	if err := json.Unmarshal(d, &c); err != nil {
		rep.Trouble = err.Error()
		return
	}
	v, dig, trouble := evalCase(p, &c)
	rep.Trouble = trouble
	rep.Cases = 1
	if v != nil {
		rep.Found = append(rep.Found, &found{Viol: v, Digest: dig, Case: d})
	}
}

// ---- shrinking: generic over the JSON tree of a case

func (f *found) shrink(p prop, c *Case) {
	f.Orig, f.OrigV, f.OrigD = f.Case, f.Viol, f.Digest
	limit := time.Now().Add(25 * time.Second)
	tries := 0
	orig := c.shape()
	try := func(tree any) bool {
		if tries > 3000 || time.Now().After(limit) {
			return false
		}
		d, err := json.Marshal(tree)
		if err != nil || len(d) > len(f.Case)+8 {
			return false
		}
		var x Case
		if json.Unmarshal(d, &x) != nil {
			return false
		}
		y, raw := trip(&x)
		if !y.shape().within(orig) {
			return false
		}
		tries++
		v, dig, trouble := evalCase(p, y)
		if trouble != "" || v == nil || v.Kind != f.Viol.Kind || v.Known != f.Viol.Known {
			return false
		}
		f.Viol, f.Digest, f.Case = v, dig, raw
		return true
	}
	for round := 0; round < 6; round++ {
		var root any
		json.Unmarshal(f.Case, &root)
		if !shrinkTree(root, try) {
			break
		}
	}
	f.Tries = tries
}

type slot struct {
	get func() any
	set func(any)
	del func()
	key string
}

func shrinkTree(root any, try func(any) bool) bool {
	any1 := false
	var walk func(s slot)
	walk = func(s slot) {
		switch v := s.get().(type) {
		case []any:
			// drop halves, quarters, ... single elements
			for n := len(v) / 2; n >= 1; n /= 2 {
				for i := 0; i+n <= len(v); {
					w := append(append([]any{}, v[:i]...), v[i+n:]...)
					s.set(w)
					if try(root) {
						v = w
						any1 = true
					} else {
						s.set(v)
						i += n
					}
				}
			}
			for i := range v {
				i := i
				walk(slot{get: func() any { return v[i] }, set: func(x any) { v[i] = x }, key: s.key})
			}
		case map[string]any:
			for _, k := range sortedKeys(v) {
				k := k
				old := v[k]
				switch k {
				case "prop", "seed", "kind", "entry", "op", "k", "path", "syntax", "t", "id", "want", "mode", "errno", "stdin_err", "argv":
					continue
				}
				delete(v, k)
				if try(root) {
					any1 = true
					continue
				}
				v[k] = old
				walk(slot{get: func() any { return v[k] }, set: func(x any) { v[k] = x }, key: k})
			}
		case string:
			switch s.key {
			case "data", "s", "raw", "stdin", "input":
				for n := len(v) / 2; n >= 1 && len(v) > 0; {
					done := false
					for i := 0; i+n <= len(v) && i < 40*n; i += n {
						w := v[:i] + v[i+n:]
						if !validCut(v, i) || !validCut(v, i+n) {
							continue
						}
						s.set(w)
						if try(root) {
							v = w
							any1, done = true, true
							break
						}
						s.set(v)
					}
					if !done || n > len(v) {
						n /= 2
					}
				}
			}
		case float64:
			for _, w := range []float64{0, 1, float64(int64(v / 2)), v - 1} {
				if w == v || v < 0 || w < 0 || w >= v {
					continue
				}
				s.set(w)
				if try(root) {
					any1 = true
					break
				}
				s.set(v)
			}
		}
	}
	walk(slot{get: func() any { return root }, set: func(x any) { root = x }})
	return any1
}

func validCut(s string, i int) bool {
	return i == 0 || i == len(s) || s[i]&0xc0 != 0x80
}

var _ = strings.HasPrefix
