package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

// ---- C28: two processes on one machine
//
// One process runs for real. What the other one did when it had the machine
// for itself was recorded call by call; its calls are made again on the shared
// file system at chosen instants of the first one's run. A call that now has
// another result means that the other process would have gone another way.

// callSpec says what the arguments of a system call are: s a string, d bytes
// going in and o bytes coming out (the next argument is their number), t a
// stat record coming out, k a lock record going in, f a descriptor, F a directory descriptor.
var callSpec = map[uintptr]string{
	syscall.SYS_OPEN: "s--", syscall.SYS_OPENAT: "Fs--", syscall.SYS_CREAT: "s-",
	syscall.SYS_READ: "fo-", syscall.SYS_PREAD64: "fo--", syscall.SYS_WRITE: "fd-", syscall.SYS_PWRITE64: "fd--",
	syscall.SYS_CLOSE: "f", syscall.SYS_FSTAT: "ft", syscall.SYS_STAT: "st", syscall.SYS_LSTAT: "st", syscall.SYS_NEWFSTATAT: "Fst-",
	syscall.SYS_LSEEK: "f--", syscall.SYS_FTRUNCATE: "f-", syscall.SYS_TRUNCATE: "s-", syscall.SYS_FSYNC: "f", syscall.SYS_FDATASYNC: "f",
	syscall.SYS_RENAME: "ss", syscall.SYS_RENAMEAT: "FsFs", sysRenameat2: "FsFs-",
	syscall.SYS_MKDIR: "s-", syscall.SYS_MKDIRAT: "Fs-", syscall.SYS_RMDIR: "s", syscall.SYS_UNLINK: "s", syscall.SYS_UNLINKAT: "Fs-",
	syscall.SYS_LINK: "ss", syscall.SYS_LINKAT: "FsFs-", syscall.SYS_SYMLINK: "ss", syscall.SYS_SYMLINKAT: "sFs",
	syscall.SYS_READLINK: "so-", syscall.SYS_READLINKAT: "Fso-",
	syscall.SYS_CHMOD: "s-", syscall.SYS_FCHMOD: "f-", syscall.SYS_FCHMODAT: "Fs--", sysFchmodat2: "Fs--",
	syscall.SYS_CHOWN: "s--", syscall.SYS_LCHOWN: "s--", syscall.SYS_FCHOWN: "f--", syscall.SYS_FCHOWNAT: "Fs---",
	syscall.SYS_ACCESS: "s-", syscall.SYS_FACCESSAT: "Fs--", sysFaccessat2: "Fs--", syscall.SYS_FLOCK: "f-",
	syscall.SYS_FCNTL: "f-k",
}

type callRec struct {
	trap uintptr
	a    [6]uintptr
	buf  [6][]byte // what s and d arguments pointed to
	r    uintptr
	e    syscall.Errno
	out  []byte
}

// recorder keeps the calls one process makes on files.
type recorder struct{ recs []callRec }

func (p *recorder) before(trap uintptr, a [6]uintptr) *callRec {
	spec, ok := callSpec[trap]
	if !ok || spec[0] == 'f' && int(int32(a[0])) < 3 {
		return nil
	}
	if trap == syscall.SYS_FCNTL && a[1] != syscall.F_SETLK && a[1] != syscall.F_SETLKW {
		return nil
	}
	c := &callRec{trap: trap, a: a}
	for i, s := range spec {
		switch s {
		case 's':
			c.buf[i] = append([]byte(cstr(a[i])), 0)
		case 'd':
			c.buf[i] = append([]byte(nil), mem(a[i], a[i+1])...)
		case 'k':
			c.buf[i] = append([]byte(nil), mem(a[i], unsafe.Sizeof(syscall.Flock_t{}))...)
		}
	}
	return c
}

func (p *recorder) after(c *callRec, r uintptr, e syscall.Errno) {
	c.r, c.e = r, e
	c.out = outBytes(c.trap, c.a, r, e)
	p.recs = append(p.recs, *c)
}

// outBytes is what a finished call delivered, as far as a process running
// alone can count on it.
func outBytes(trap uintptr, a [6]uintptr, r uintptr, e syscall.Errno) []byte {
	if e != 0 {
		return nil
	}
	for i, s := range callSpec[trap] {
		switch s {
		case 'o':
			return append([]byte(nil), mem(a[i], r)...)
		case 't':
			st := (*syscall.Stat_t)(unsafe.Pointer(a[i]))
			if st.Mode&syscall.S_IFMT == syscall.S_IFDIR {
				return nil
			}
			return []byte(fmt.Sprint(st.Mode, st.Nlink, st.Uid, st.Size))
		}
	}
	return nil
}

// peer makes recorded calls again.
type peer struct {
	k    *Kernel
	recs []callRec
	next int
	fds  map[uintptr]uintptr
	diff string
}

func (p *peer) step(n int) {
	for ; n > 0 && p.next < len(p.recs) && p.diff == ""; n-- {
		c := &p.recs[p.next]
		p.next++
		p.again(c)
		if p.k.waiting { // for a lock; again, next time
			p.k.waiting = false
			p.next--
			break
		}
	}
	if p.next == len(p.recs) {
		p.k.gone = true
	}
}

// others lets the process go on, for one that waits for a lock it holds.
func (p *peer) others() bool {
	n := p.next
	p.step(1)
	return p.next > n
}

func (p *peer) again(c *callRec) {
	a := c.a
	var keep [][]byte
	hold := func(i int, b []byte) {
		if len(b) == 0 {
			b = make([]byte, 1)
		}
		keep = append(keep, b)
		a[i] = uintptr(unsafe.Pointer(&b[0]))
	}
	spec := callSpec[c.trap]
	name := ""
	for i, s := range spec {
		switch s {
		case 's':
			name += " " + string(c.buf[i][:len(c.buf[i])-1])
			hold(i, c.buf[i])
		case 'd', 'k':
			hold(i, c.buf[i])
		case 'o':
			hold(i, make([]byte, max(1, int(c.a[i+1]))))
		case 't':
			hold(i, make([]byte, unsafe.Sizeof(syscall.Stat_t{})))
		case 'f', 'F':
			if q, ok := p.fds[c.a[i]]; ok {
				a[i] = q
			}
		}
	}
	r, e, _ := p.k.Syscall(c.trap, a[0], a[1], a[2], a[3], a[4], a[5])
	out := outBytes(c.trap, a, r, e)
	runtime.KeepAlive(keep)
	if p.k.waiting {
		return
	}
	op := "call"
	if n := len(p.k.Log); n > 0 {
		op = p.k.Log[n-1].Op + " " + p.k.Log[n-1].Path
	}
	opens := c.trap == syscall.SYS_OPEN || c.trap == syscall.SYS_OPENAT || c.trap == syscall.SYS_CREAT
	switch {
	case e != c.e:
		p.diff = fmt.Sprintf("its call %d (%s%s) ends with %q instead of %q", p.next, op, name, errText(e), errText(c.e))
	case opens && e == 0:
		p.fds[c.r] = r
	case e == 0 && r != c.r:
		p.diff = fmt.Sprintf("its call %d (%s%s) returns %d instead of %d", p.next, op, name, int(r), int(c.r))
	case string(out) != string(c.out):
		p.diff = fmt.Sprintf("its call %d (%s%s) delivers %s instead of %s", p.next, op, name, short(string(out)), short(string(c.out)))
	}
}

func errText(e syscall.Errno) string {
	if e == 0 {
		return "success"
	}
	return errName(e)
}

// genProc makes one process's work.
func genProc(r *RNG) *Case {
	switch r.N(10) {
	case 0: // standard input to standard output or a file
		text := genText(r, 0)
		c := &Case{Entry: "cli", Script: genScriptIn(r, text, genOpt{}, 10, Script{Syntax: pick(r, []string{"shell", "sexp"}), Sep: r.N(100)})}
		c.Stdin = []BStr{BStr(text)}
		c.Edit.Style = r.N(60)
		if r.P(60) {
			c.Edit.Out = pick(r, []string{"out", "out.txt", "sub/out"})
			c.Nodes = append(c.Nodes, Node{Path: "sub/keep", Data: "k\n"})
		}
		if c.Script.Text() == "" {
			c.Edit.ViaFile = true
		}
		return c
	case 1: // one file to standard output or a file
		c := genBatch(r, batchOpt{maxFiles: 1, failPct: 10, bad: 5, entries: []string{"cli"}})
		c.Edit.InPlace, c.Edit.Backup = false, ""
		if r.P(60) {
			c.Edit.Out = "result"
		}
		return c
	}
	return genBatch(r, batchOpt{maxFiles: 4, size: b2i(r.P(5)), failPct: 12, bad: 8, backup: 60})
}

// paths are the files a process may read or write.
func (c *Case) paths(k *Kernel) map[string]bool {
	m := map[string]bool{}
	for _, f := range c.Files {
		m[k.canon(f)] = true
		if c.Edit.Backup != "" {
			m[k.canon(f+c.Edit.Backup)] = true
		}
	}
	if c.Edit.Out != "" {
		m[k.canon(c.Edit.Out)] = true
	}
	return m
}

func genC28(r *RNG) []*Case {
	a, b := genProc(r), genProc(r)
	if len(a.Files)+len(b.Files) > 50 {
		return nil
	}
	if r.P(25) { // the same work on other files
		d := jsonCopy(a)
		b = &d
	}
	// give the second process other files
	taken := map[string]bool{}
	for _, n := range a.Nodes {
		taken[n.Path] = true
	}
	for _, f := range append(append([]string(nil), a.Files...), a.Edit.Out) {
		taken[f] = true
	}
	style := r.N(3)
	move := func(p string) string {
		switch {
		case p == "" || style == 2 && !taken[p]:
			return p
		case style == 0:
			return "two/" + p
		}
		i := strings.LastIndexByte(p, '/') + 1
		return p[:i] + "2" + p[i:]
	}
	for i := range b.Nodes {
		b.Nodes[i].Path = move(b.Nodes[i].Path)
	}
	for i := range b.Files {
		b.Files[i] = move(b.Files[i])
	}
	b.Edit.Out = move(b.Edit.Out)
	a.Nodes = append(a.Nodes, b.Nodes...)
	if style == 0 && b.Edit.Out != "" {
		a.Nodes = append(a.Nodes, Node{Path: "two/sub/keep", Data: "k\n"})
	}
	b.Nodes = nil
	if a.Edit.ViaFile && b.Edit.ViaFile {
		b.Edit.ViaFile = false
		if b.Script.Text() == "" {
			return nil
		}
	}
	a.O.RSeed, b.O.RSeed = uint64(r.In(1, 400)), uint64(r.In(401, 900))
	a.Peer = b
	base := a.world()
	o := a.ex(base)
	var out []*Case
	for i := 0; i < 4; i++ {
		v := jsonCopy(a)
		n := max(1, o.K.nsys)
		switch r.N(4) {
		case 0: // the other one runs as a whole at one instant
			v.Sizes = make([]int, r.N(n+1)+1)
			v.Sizes[len(v.Sizes)-1] = 1 << 20
		case 1: // turn and turn about
			for j := 0; j <= n; j++ {
				v.Sizes = append(v.Sizes, 1)
			}
		default:
			m := r.In(1, 6)
			for j := 0; j <= n; j++ {
				v.Sizes = append(v.Sizes, b2i(r.P(60))*r.N(m+1))
			}
		}
		switch r.N(6) {
		case 0: // the other process is killed on the way
			v.At = r.In(1, 60)
		case 1:
			v.Kill = genKill(r, base, o.Steps)
		}
		out = append(out, &v)
	}
	return out
}

// world is the machine both processes work on, with the first one's input.
func (c *Case) world() *Kernel {
	k := c.kernel(true)
	if c.Peer != nil && c.Peer.Edit.ViaFile {
		k.addNode(&Node{Path: scriptPath, Data: BStr(c.Peer.Script.Text())})
	}
	return k
}

func evalC28(c *Case) *Viol {
	b := c.Peer
	if b == nil || c.Edit.ViaFile && b.Edit.ViaFile {
		return nil
	}
	w := c.world()
	kill := w.kill
	pa, pb := c.paths(w), b.paths(w)
	for p := range pa {
		for q := range pb {
			if p == q || strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/") {
				return nil
			}
		}
	}
	// each alone
	ka := c.world()
	ka.kill = nil
	alone := c.ex(ka)
	if v := alone.sane(); v != nil {
		return v
	}
	kb := c.world()
	kb.kill = nil
	kb.stdin = append([]BStr(nil), b.Stdin...)
	rec := &recorder{}
	kb.rec = rec
	balone := b.ex(kb)
	kb.rec = nil
	if v := balone.sane(); v != nil {
		return v
	}
	// together
	p := &peer{k: NewKernel(nil), recs: rec.recs, fds: map[uintptr]uintptr{}}
	p.k.root, p.k.nino, p.k.rseed, p.k.locks = w.root, 1<<20, b.O.RSeed, w.locks
	if c.At > 0 && c.At < len(p.recs) {
		p.recs = p.recs[:c.At]
		st.faults["peer-killed"]++
	}
	turn := 0
	next := func() {
		if turn < len(c.Sizes) {
			p.step(c.Sizes[turn])
		}
		turn++
	}
	next()
	w.kill = kill
	w.OnSys = func(*Event) { next() }
	w.others = p.others
	out := c.ex(w)
	w.OnSys, w.others, w.gone = nil, nil, true
	st.note(out.Result, p.next > 0)
	st.faults["peer-call"] += p.next
	if v := out.sane(); v != nil {
		return v
	}
	p.step(len(p.recs))
	if p.diff != "" {
		return viol("other-disturbed", "a process working on other files is disturbed: %s", p.diff).with(w)
	}
	if out.Killed == "" {
		if out.Exit != alone.Exit || out.Failed != alone.Failed || string(w.Stdout) != string(ka.Stdout) || out.Text != alone.Text {
			return viol("disturbed", "with another process at work on other files: exit %d, output %s; alone: exit %d, output %s", out.Exit, short(string(w.Stdout)+out.Text), alone.Exit, short(string(ka.Stdout)+alone.Text)).with(w)
		}
		for _, f := range sortedKeys(pa) {
			x, ok := w.Content(f)
			y, ok2 := ka.Content(f)
			if x != y || ok != ok2 {
				return viol("disturbed", "with another process at work on other files %s ends as %s (present %v), alone as %s (present %v)", f, short(x), ok, short(y), ok2).with(w)
			}
		}
	}
	if len(p.recs) == len(rec.recs) {
		for _, f := range sortedKeys(pb) {
			x, ok := w.Content(f)
			y, ok2 := kb.Content(f)
			if x != y || ok != ok2 {
				return viol("other-disturbed", "the other process's file %s ends as %s (present %v), alone as %s (present %v)", f, short(x), ok, short(y), ok2).with(w)
			}
		}
	}
	return nil
}

func jsonCopy(c *Case) Case {
	var d Case
	b, _ := json.Marshal(c)
	jsonUnmarshal(b, &d)
	return d
}
