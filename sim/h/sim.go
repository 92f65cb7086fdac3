package main

import (
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	vy "github.com/dhamidi/texted/internal/verifvy"
)

// BStr is a byte string that survives JSON whatever its bytes are.
type BStr string

func (b BStr) MarshalJSON() ([]byte, error) {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(b); i++ {
		c := b[i]
		switch {
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case c == '\n':
			sb.WriteString("\\n")
		case c >= 0x20 && c < 0x7f:
			sb.WriteByte(c)
		default:
			fmt.Fprintf(&sb, "\\u%04x", c) // code point c stands for byte c
		}
	}
	sb.WriteByte('"')
	return []byte(sb.String()), nil
}

func (b *BStr) UnmarshalJSON(d []byte) error {
	var s string
	if err := jsonUnmarshal(d, &s); err != nil {
		return err
	}
	out := make([]byte, 0, len(s))
	for _, r := range s {
		out = append(out, byte(r))
	}
	*b = BStr(out)
	return nil
}

// RNG is the harness's own generator (splitmix64).
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed*0x9e3779b97f4a7c15 + 0x1234567} }

//
//go:norace
//go:noinline
func (r *RNG) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *RNG) P(pct int) bool     { return r.N(100) < pct }
func (r *RNG) In(a, b int) int    { return a + r.N(b-a+1) }
func (r *RNG) Fork() *RNG         { return NewRNG(r.U()) }
func pick[T any](r *RNG, x []T) T { return x[r.N(len(x))] }

// Opts steers one run.
type Opts struct {
	RSeed      uint64 `json:"rseed,omitempty"`      // runtime randomness
	SSeed      uint64 `json:"sseed,omitempty"`      // scheduler
	SwitchMean int    `json:"switch,omitempty"`     // mean steps between forced switches; 0: none
	Budget     int64  `json:"budget,omitempty"`     // steps; 0: default
	SigStep    int64  `json:"sig_step,omitempty"`   // SIGTERM at this step
	SigSys     int    `json:"sig_sys,omitempty"`    // SIGTERM after this system call
	SigInt     bool   `json:"sig_int,omitempty"`    // SIGINT instead of SIGTERM
	SwitchSys  bool   `json:"switch_sys,omitempty"` // system calls are switch points
	Clock      int64  `json:"clock,omitempty"`      // the machine's clock is ahead by so much
	Slow       int64  `json:"slow,omitempty"`       // statements and system calls take so many times longer
}

// Result is what one run did.
type Result struct {
	K        *Kernel
	Exit     int // exit status of the program; -1: still running when stopped
	Exited   bool
	Returned bool // body returned
	Panic    string
	Killed   string
	Stuck    bool
	Budget   bool
	Steps    int64
	Switches int
	SchedH   uint64
	Wall     time.Duration
}

const defaultBudget = 150_000_000

type run struct {
	k        *Kernel
	o        Opts
	res      *Result
	done     bool
	exiting  map[uint64]bool
	first    uint64 // its first goroutine; older ones belong to earlier processes
	rng      *RNG
	nextSw   int64
	sigs     []sigReg
	ignored  []os.Signal
	std      [3]*os.File
	sent     bool
	rounds   int
	hold     bool
	callers  []*caller
	killStep int64
}

var cur *run

// yieldIdle gives other goroutines a turn while waiting inside a system call.
func yieldIdle() { runtime.Gosched() }

func installSeams() {
	runtime.VerifTick = &vy.Steps
	syscall.VerifHook = hook
	runtime.VerifPanic = onPanic
	os.VerifExit = onExit
	signal.VerifNotify = onNotify
	time.VerifSleep = onSleep
	time.VerifNow = onNow
	vy.Hook = onStep
}

//go:norace
func onSleep(d time.Duration) bool {
	r := cur
	if r == nil || !simGo() {
		return false
	}
	if r.callers == nil {
		r.k.now += int64(d)
	}
	runtime.Gosched()
	return true
}

//go:norace
func onNow() (int64, bool) {
	if r := cur; r != nil && simGo() {
		if r.callers == nil {
			r.k.tick(0)
		}
		return r.k.now, true
	}
	return 0, false
}

// simGo tells whether the calling goroutine belongs to the simulated process.
//
//go:norace
func simGo() bool { return runtime.VerifGoid() != driverGo }

var driverGo uint64

//go:norace
func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno, bool) {
	r := cur
	if r == nil || !vy.Active {
		switch trap {
		case syscall.SYS_CLOSE:
			if a1 < 3 || int32(a1) >= fdStart {
				return 0, 0, 0, true
			}
		case syscall.SYS_READ, syscall.SYS_WRITE, syscall.SYS_FSTAT, syscall.SYS_FCNTL, syscall.SYS_PREAD64, syscall.SYS_PWRITE64:
			if int32(a1) >= fdStart {
				return 0, 0, syscall.EBADF, true
			}
		}
		return 0, 0, 0, false
	}
	if !simGo() {
		return 0, 0, 0, false
	}
	k := r.k
	if r.callers != nil {
		return r.callerCall(trap, a1, a2, a3, a4, a5, a6)
	}
	if trap == syscall.SYS_CLOSE && int32(a1) >= fdStart && int(a1) < k.fd0 {
		return 0, 0, syscall.EBADF, true // a finalizer of an earlier run
	}
	if runtime.VerifGoid() < r.first {
		return ^uintptr(0), 0, syscall.EIO, true // of a process that is dead already
	}
	r.rounds = 0
	var rec *callRec
	if k.rec != nil && !k.dead {
		rec = k.rec.before(trap, [6]uintptr{a1, a2, a3, a4, a5, a6})
	}
	r1, e, ok := k.Syscall(trap, a1, a2, a3, a4, a5, a6)
	if !ok {
		return 0, 0, 0, false
	}
	if rec != nil && !k.dead {
		k.rec.after(rec, r1, e)
	}
	if r.o.SigSys > 0 && k.nsys >= r.o.SigSys {
		r.signal()
	}
	if r.o.SwitchSys && !k.dead && !r.isExiting(runtime.VerifGoid()) && r.rng.P(40) {
		r.res.Switches++
		r.mix(uint64(vy.Steps))
		runtime.Gosched()
	}
	if e != 0 {
		return ^uintptr(0), 0, e, true
	}
	return r1, 0, 0, true
}

//go:norace
func (r *run) mix(x uint64) {
	r.res.SchedH = (r.res.SchedH ^ x) * 0x100000001b3
}

// sigReg is a channel that asked for signals; none named means all.
type sigReg struct {
	c   chan<- os.Signal
	sig []os.Signal
}

func has(l []os.Signal, s os.Signal) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// signal delivers SIGTERM (or SIGINT) to the process, once.
//
//go:norace
func (r *run) signal() {
	if r.sent {
		return
	}
	r.sent = true
	if r.k.onSig != nil {
		r.k.onSig()
	}
	if r.k.sigCall {
		return
	}
	sig, name := os.Signal(syscall.SIGTERM), "SIGTERM"
	if r.o.SigInt {
		sig, name = syscall.SIGINT, "SIGINT"
	}
	r.k.FaultFired[name]++
	told := has(r.ignored, sig)
	for _, g := range r.sigs {
		if len(g.sig) > 0 && !has(g.sig, sig) {
			continue
		}
		told = true
		select {
		case g.c <- sig:
		default:
		}
	}
	if !told {
		r.die(name) // what the system does when nobody asked to be told
	}
	for i := 0; i < 20 && !r.k.dead; i++ {
		runtime.Gosched()
	}
}

//go:norace
func onNotify(c chan<- os.Signal, sig []os.Signal, op string) bool {
	r := cur
	if r == nil {
		return false
	}
	switch op {
	case "notify":
		r.sigs = append(r.sigs, sigReg{c, append([]os.Signal(nil), sig...)})
		var left []os.Signal
		for _, s := range r.ignored {
			if len(sig) > 0 && !has(sig, s) {
				left = append(left, s)
			}
		}
		r.ignored = left
		return true
	case "stop":
		var left []sigReg
		for _, g := range r.sigs {
			if g.c != c {
				left = append(left, g)
			}
		}
		r.sigs = left
		return true
	}
	all := []os.Signal{syscall.SIGTERM, syscall.SIGINT}
	if len(sig) == 0 {
		sig = all
	}
	for i := range r.sigs {
		g := &r.sigs[i]
		if len(g.sig) == 0 {
			g.sig = all
		}
		left := []os.Signal{syscall.SIGUSR1} // an empty list would mean all
		for _, s := range g.sig {
			if !has(sig, s) {
				left = append(left, s)
			}
		}
		g.sig = left
	}
	if op == "ignore" {
		r.ignored = append(r.ignored, sig...)
	}
	return true
}

// die ends the simulated process at this instant, whichever of its goroutines
// is running.
//
//go:norace
func (r *run) die(why string) {
	k := r.k
	if !k.dead {
		k.dead = true
		r.res.Killed = why
		r.res.Steps = vy.Steps
	}
	r.leave()
}

//go:norace
func (r *run) leave() {
	r.done = true
	id := runtime.VerifGoid()
	if r.isExiting(id) {
		return
	}
	if r.callers != nil {
		if c := callerOf(id); c != nil {
			c.exiting = true
		}
	} else {
		r.exiting[id] = true
	}
	runtime.Goexit()
}

//go:norace
func (r *run) isExiting(id uint64) bool {
	if r.callers != nil {
		if c := callerOf(id); c != nil {
			return c.exiting
		}
		return false
	}
	return r.exiting[id]
}

//go:norace
func onExit(code int) {
	r := cur
	if r == nil || !simGo() {
		return
	}
	if !r.k.dead {
		r.res.Exit = code & 0xff
		r.res.Exited = true
		r.res.Steps = vy.Steps
		r.k.dead = true
	}
	r.done = true
	r.leave()
	select {}
}

//go:norace
func onPanic(v any) {
	r := cur
	if r == nil || !simGo() {
		return
	}
	if !r.k.dead {
		r.k.dead = true
		if e, ok := v.(error); ok {
			r.res.Panic = e.Error()
		} else {
			r.res.Panic = fmt.Sprint(v)
		}
		r.res.Panic += "\n" + trimStack(string(debug.Stack()))
		r.res.Exit = 2
		r.res.Steps = vy.Steps
	}
	r.done = true
	select {}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "texted/") && !strings.Contains(lines[i], "zz_verif") && !strings.HasPrefix(lines[i], "\t") && !strings.Contains(lines[i], "main.") {
			out = append(out, strings.SplitN(lines[i], "(", 2)[0])
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

//go:norace
func onStep() {
	r := cur
	if r == nil {
		return
	}
	id := runtime.VerifGoid()
	if r.k.dead {
		r.leave()
		return
	}
	if r.isExiting(id) {
		return
	}
	if id < r.first { // of a process that is dead already
		if r.exiting[id] {
			return
		}
		r.exiting[id] = true
		runtime.Goexit()
	}
	s := vy.Steps
	if r.killStep > 0 && s >= r.killStep {
		r.killStep = 0
		r.k.FaultFired["kill@step"]++
		r.die("killed at step")
	}
	if r.o.SigStep > 0 && s >= r.o.SigStep {
		r.signal()
	}
	budget := r.o.Budget
	if budget == 0 {
		budget = defaultBudget
	}
	if s >= budget {
		r.res.Budget = true
		r.die("step budget")
	}
	if r.nextSw > 0 && s >= r.nextSw {
		r.res.Switches++
		r.mix(uint64(s))
		r.setNext()
		r.rounds = 0
		runtime.Gosched()
		if r.k.dead {
			r.leave()
		}
		return
	}
	r.setNext()
}

// setNext computes the step at which the hook wants control again.
//
//go:norace
func (r *run) setNext() {
	s := vy.Steps
	n := r.o.Budget
	if n == 0 {
		n = defaultBudget
	}
	if r.o.SwitchMean > 0 {
		if r.nextSw <= s {
			r.nextSw = s + 1 + int64(r.rng.N(2*r.o.SwitchMean))
		}
		n = min(n, r.nextSw)
	}
	if r.killStep > 0 {
		n = min(n, r.killStep)
	}
	if r.o.SigStep > s {
		n = min(n, r.o.SigStep)
	}
	if r.k.dead {
		n = s
	}
	vy.Next = n
}

func beginRun(k *Kernel, o Opts) *run {
	driverGo = runtime.VerifGoid()
	r := &run{k: k, o: o, res: &Result{K: k, Exit: -1}, exiting: map[uint64]bool{}, rng: NewRNG(o.SSeed + 77)}
	if k.kill != nil {
		r.killStep = k.kill.Step
	}
	k.steps = func() int64 { return vy.Steps }
	k.raise = r.signal
	k.rseed = o.RSeed
	k.now += o.Clock
	k.slow, k.ticked = o.Slow, 0
	k.die = r.die
	k.tooMany = func() {
		r.res.Budget = true
		r.die("system call budget")
	}
	runtime.VerifReseed(o.RSeed*2654435761 + 99)
	runtime.VerifPick(true)
	return r
}

var (
	realStdin, realStdout, realStderr = os.Stdin, os.Stdout, os.Stderr
	nRuns                             int
	nSteps, maxSteps                  int64
	nSys                              int64
	simNs                             int64
)

func nop() {}

// Run executes body as the one simulated process until it ends.
func Run(k *Kernel, o Opts, body func()) *Result {
	nRuns++
	if nRuns%256 == 0 {
		runtime.GC()
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
	}
	if !raceBuild {
		vy.Steps = 0
		runtime.VerifReseed(o.RSeed*2654435761 + 98)
		vy.Reset() // the memory of a new process
	}
	vy.Steps = 0
	r := beginRun(k, o)
	start := k.now
	cur = r
	r.setNext()
	vy.Active = true
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		r.first = runtime.VerifGoid()
		r.stdio()
		body()
		if !r.k.dead {
			r.res.Returned = true
			r.res.Exit = 0
			r.res.Steps = vy.Steps
			r.k.dead = true
		}
		r.done = true
	}()
	r.drive()
	r.finish()
	select {
	case <-fin:
	default:
	}
	r.realStdio()
	st.mixDigest(r.res)
	nSteps += r.res.Steps
	maxSteps = max(maxSteps, r.res.Steps)
	nSys += int64(k.nsys)
	simNs += k.now - start + max(r.res.Steps-k.ticked, 0)*100
	return r.res
}

// drive schedules the simulated goroutines until the process has ended or
// nothing can run any more.
//
//go:norace
func (r *run) drive() {
	const idle = 400
	last := vy.Steps
	r.rounds = 0
	real := 0
	for !r.done {
		runtime.Gosched()
		r.rounds++
		if r.hold { // the simulator itself is at work
			r.rounds, real = 0, 0
		}
		if r.callers != nil && r.serve() {
			r.rounds = 0
		}
		if vy.Steps != last {
			last = vy.Steps
			r.rounds = 0
		}
		if r.rounds > idle {
			// perhaps a real timer is pending; give it a chance
			if real < 8 {
				real++
				tv := syscall.Timespec{Nsec: 20_000_000}
				syscall.Nanosleep(&tv, nil)
				r.rounds = idle - 60
				continue
			}
			if real == 8 {
				real++
				runtime.GC() // the program may have been made to wait for the collector
				r.rounds = idle - 60
				continue
			}
			r.res.Stuck = true
			r.res.Steps = vy.Steps
			r.k.dead = true
			break
		}
	}
	if r.res.Steps == 0 {
		r.res.Steps = vy.Steps
	}
}

// finish lets the remaining goroutines of the dead process run into their end.
func (r *run) finish() {
	runtime.VerifPick(false)
	vy.Next = 0
	for i := 0; i < 12; i++ {
		runtime.Gosched()
	}
	for _, g := range r.sigs {
		select {
		case g.c <- syscall.SIGTERM:
		default:
		}
	}
	for i := 0; i < 12; i++ {
		runtime.Gosched()
	}
	vy.Active = false
	cur = nil
}

// stdio gives the simulated process its standard streams.
func (r *run) stdio() {
	r.std = [3]*os.File{os.NewFile(0, "/dev/stdin"), os.NewFile(1, "/dev/stdout"), os.NewFile(2, "/dev/stderr")}
	os.Stdin, os.Stdout, os.Stderr = r.std[0], r.std[1], r.std[2]
}

// realStdio takes them away again, finalizers included: they would close the
// descriptors of a later run.
func (r *run) realStdio() {
	os.Stdin, os.Stdout, os.Stderr = realStdin, realStdout, realStderr
	for _, f := range r.std {
		if f != nil {
			f.Close()
		}
	}
}
