package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// The simulated kernel: an in-memory file system, descriptors, standard
// streams, and every fault the plan asks for. One Kernel is one machine
// during one run.

const fdStart = 100000

// fdNext never goes back, so that a descriptor of an earlier run can never be
// mistaken for one of a later run.
var fdNext = fdStart

const simUID = 1000

type Inode struct {
	ID     int
	Kind   byte // 'f' 'd' 'l'
	Mode   uint32
	UID    int
	Data   []byte
	Target string
	Ents   map[string]*Inode
	Nlink  int
	Mtime  int64 // of the last change, machine time; 0: from before the run
}

type openFile struct {
	fd     int
	ino    *Inode
	flags  int
	off    int64
	path   string
	dirPos int
	stream int       // 0 stdin, 1 stdout, 2 stderr, -1 file
	desc   *openFile // what this descriptor is a duplicate of
}

// lock is an advisory lock on a file, there as long as its process has the
// description open (flock) or until it closes the file (fcntl).
type lock struct {
	ino   *Inode
	k     *Kernel
	desc  *openFile // nil: a lock of the whole process
	write bool
}

func (l *lock) held() bool {
	if l.k.gone {
		return false
	}
	if l.desc == nil {
		return true
	}
	for _, f := range l.k.fds {
		if f.desc == l.desc {
			return true
		}
	}
	return false
}

// setLock takes (or, with kind LOCK_UN, gives back) a lock. What another
// process holds is waited for by letting that process go on; what this process
// holds itself is waited for by nobody.
func (k *Kernel) setLock(f *openFile, desc *openFile, kind int, wait bool) syscall.Errno {
	drop := func() {
		var rest []*lock
		for _, l := range *k.locks {
			if l.held() && !(l.k == k && l.ino == f.ino && l.desc == desc) {
				rest = append(rest, l)
			}
		}
		*k.locks = rest
	}
	if kind == syscall.LOCK_UN {
		drop()
		return 0
	}
	for {
		var by *lock
		for _, l := range *k.locks {
			same := l.k == k && (l.desc == desc || l.desc == nil || desc == nil)
			if l.ino == f.ino && !same && (l.desc == nil) == (desc == nil) && (l.write || kind == syscall.LOCK_EX) && l.held() {
				by = l
			}
		}
		switch {
		case by == nil || by.k == k && wait:
			drop()
			*k.locks = append(*k.locks, &lock{f.ino, k, desc, kind == syscall.LOCK_EX})
			return 0
		case !wait:
			return syscall.EAGAIN
		case k.others == nil:
			k.waiting = true
			return syscall.EINTR
		case !k.others():
			return syscall.EDEADLK
		}
	}
}

// Node describes one entry of the initial file tree.
type Node struct {
	Path   string `json:"path"`
	Kind   string `json:"kind,omitempty"` // file (default), dir, sym, hard
	Data   BStr   `json:"data,omitempty"`
	Mode   uint32 `json:"mode,omitempty"`
	UID    int    `json:"uid,omitempty"` // 0 means simUID, -1 means root
	Target string `json:"target,omitempty"`
	Fill   int    `json:"fill,omitempty"` // Data is followed by this many generated bytes
}

// Fault is one planned disturbance.
type Fault struct {
	Op    string `json:"op"`              // open read write close stat any
	Path  string `json:"path,omitempty"`  // canonical path; empty: any path
	Nth   int    `json:"nth"`             // counts matching calls from 0
	Every int    `json:"every,omitempty"` // 0: once; n: again at every nth later match
	Kind  string `json:"kind"`            // errno short intr partial
	Errno int    `json:"errno,omitempty"`
	N     int    `json:"n,omitempty"` // bytes for short and partial
	seen  int
	fired int
}

// Kill ends the process at one instant.
type Kill struct {
	Sys   int    `json:"sys,omitempty"` // index of a system call, from 1; 0: not by call
	Phase string `json:"phase,omitempty"`
	N     int    `json:"n,omitempty"`    // bytes done by a write cut in the middle
	Step  int64  `json:"step,omitempty"` // or number of a program step
}

// Event is one entry of a run's history.
type Event struct {
	I     int
	Op    string
	Path  string
	Path2 string
	N     int
	Err   string
	Step  int64
	Fault string
	Mut   bool
	Trunc bool
	FD    int
	Ino   int
}

func (e Event) String() string {
	s := fmt.Sprintf("#%d %s %s", e.I, e.Op, e.Path)
	if e.Path2 != "" {
		s += " " + e.Path2
	}
	s += fmt.Sprintf(" n=%d", e.N)
	if e.Trunc {
		s += " trunc"
	}
	if e.Err != "" {
		s += " err=" + e.Err
	}
	if e.Fault != "" {
		s += " FAULT:" + e.Fault
	}
	return s
}

type Kernel struct {
	slow    int64 // the machine is slower by this factor
	ticked  int64 // statements the clock has followed
	root    *Inode
	nino    int
	cwd     string
	fds     map[int]*openFile
	fd0     int
	maxOpen int
	FDLimit int

	stdin       []BStr // chunks, delivered one per read
	stdinErr    int    // errno after the last chunk, 0: end of file
	stdinPos    int
	stdinGate   func() bool // more input may be delivered
	stdinPull   func() (BStr, bool)
	Stdout      []byte
	Stderr      []byte
	outLimit    int // bytes stdout accepts before failing, -1: unlimited
	outErr      int
	outMax      int // bytes stdout accepts per write call, 0: all
	onOut       func()
	Capacity    int // bytes of file data, -1: unlimited
	faults      []*Fault
	kill        *Kill
	nsys        int
	Log         []Event
	logLimit    int
	OnMut       func(*Event)
	OnSys       func(*Event)
	onSig       func()
	raise       func() // sends the signal of the run now
	sigCall     bool   // the signal is only a call of onSig
	rseed       uint64
	umask       uint32
	Unsupported []string
	intrRow     int
	FaultFired  map[string]int
	faultWidth  int
	steps       func() int64
	die         func(why string)
	tooMany     func()
	dead        bool
	now         int64
	epilogue    bool
	rec         *recorder
	locks       *[]*lock
	gone        bool        // the process has ended
	waiting     bool        // the last call would have waited for a lock
	others      func() bool // lets other processes go on; false: they cannot
}

func init() { os.Setenv("HOME", "/home/u") } // in the simulated tree

func NewKernel(nodes []Node) *Kernel {
	k := &Kernel{cwd: "/w", fds: map[int]*openFile{}, outLimit: -1, Capacity: -1, umask: 0o22, logLimit: 200000, FaultFired: map[string]int{}, locks: new([]*lock)}
	k.root = k.newInode('d', 0o755, 0)
	k.root.Nlink = 2
	k.fd0 = fdNext
	k.now = 1700000000e9
	k.steps = func() int64 { return 0 }
	for i := 0; i < 3; i++ {
		k.fds[i] = &openFile{fd: i, stream: i, flags: syscall.O_RDWR}
	}
	for _, d := range []string{"/w", "/tmp", "/etc"} {
		n := k.newInode('d', 0o755, simUID)
		n.Nlink = 2
		if d == "/tmp" {
			n.Mode = 0o777
		}
		k.root.Ents[d[1:]] = n
	}
	for _, d := range []string{"/home", "/home/u", "/home/u/.cache", "/home/u/.config", "/var", "/var/tmp"} {
		k.addNode(&Node{Path: d, Kind: "dir", Mode: 0o755})
	}
	for i := range nodes {
		k.addNode(&nodes[i])
	}
	return k
}

func (k *Kernel) newInode(kind byte, mode uint32, uid int) *Inode {
	k.nino++
	n := &Inode{ID: k.nino, Kind: kind, Mode: mode, UID: uid, Nlink: 1}
	if kind == 'd' {
		n.Ents = map[string]*Inode{}
	}
	return n
}

func (k *Kernel) addNode(nd *Node) {
	p := k.abs(nd.Path)
	dir, base := path.Split(p)
	d, e := k.walk(path.Clean(dir), true, false)
	if e != 0 || d == nil || d.Kind != 'd' {
		// create parents
		cur := k.root
		for _, c := range strings.Split(strings.Trim(path.Clean(dir), "/"), "/") {
			if c == "" {
				continue
			}
			n := cur.Ents[c]
			if n == nil {
				n = k.newInode('d', 0o755, simUID)
				n.Nlink = 2
				cur.Ents[c] = n
			}
			cur = n
		}
		d = cur
	}
	uid := nd.UID
	if uid == 0 {
		uid = simUID
	} else if uid < 0 {
		uid = 0
	}
	mode := nd.Mode
	switch nd.Kind {
	case "", "file":
		if mode == 0 {
			mode = 0o644
		}
		n := k.newInode('f', mode&0o7777, uid)
		n.Data = append([]byte(nd.Data), filler(nd.Fill)...)
		d.Ents[base] = n
	case "nomode": // a file nobody may touch
		n := k.newInode('f', 0, uid)
		n.Data = append([]byte(nd.Data), filler(nd.Fill)...)
		d.Ents[base] = n
	case "dir":
		if mode == 0 {
			mode = 0o755
		}
		n := k.newInode('d', mode&0o7777, uid)
		n.Nlink = 2
		d.Ents[base] = n
	case "sym":
		n := k.newInode('l', 0o777, uid)
		n.Target = nd.Target
		d.Ents[base] = n
	case "hard":
		t, e := k.walk(k.abs(nd.Target), true, false)
		if e == 0 && t != nil && t.Kind == 'f' {
			t.Nlink++
			d.Ents[base] = t
		}
	}
}

// external is a change by another program: kind rm removes a file, swap
// replaces it by a new one of that name, file writes it in place.
func (k *Kernel) external(nd *Node) {
	k.now += 3e9
	n, dir, base, _ := k.walk2(k.abs(nd.Path), nd.Kind != "rm" && nd.Kind != "swap", false)
	switch nd.Kind {
	case "", "file", "swap":
		if n != nil && n.Kind == 'd' {
			return
		}
		if nd.Kind != "swap" && n != nil {
			n.Data = []byte(nd.Data)
			n.Mtime = k.now
			return
		}
		if n != nil {
			n.Nlink--
			delete(dir.Ents, base)
		}
		x := *nd
		x.Kind = ""
		k.addNode(&x)
		if n, _ := k.walk(k.abs(nd.Path), true, false); n != nil {
			n.Mtime = k.now
		}
	case "rm":
		if n != nil && n.Kind != 'd' {
			n.Nlink--
			delete(dir.Ents, base)
		}
	case "chmod":
		if n != nil && n.Kind == 'f' {
			n.Mode = nd.Mode
		}
	}
}

func (k *Kernel) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = k.cwd + "/" + p
	}
	return path.Clean(p)
}

// canRead and friends implement permission bits for the simulated user.
func perm(n *Inode, bit uint32) bool {
	m := n.Mode
	if n.UID == simUID {
		m >>= 6
	}
	return m&bit != 0
}

// walk resolves an absolute path.
func (k *Kernel) walk(p string, follow, check bool) (*Inode, syscall.Errno) {
	n, _, _, e := k.walk2(p, follow, check)
	return n, e
}

// walk2 also returns the directory and name of the last component; the inode
// is nil with errno ENOENT when only the last component is missing.
func (k *Kernel) walk2(p string, follow, check bool) (ino, dir *Inode, base string, e syscall.Errno) {
	return k.walkDepth(p, follow, check, 0)
}

func (k *Kernel) walkDepth(p string, follow, check bool, depth int) (ino, dir *Inode, base string, e syscall.Errno) {
	if depth > 40 {
		return nil, nil, "", syscall.ELOOP
	}
	if p == "" {
		return nil, nil, "", syscall.ENOENT
	}
	trail := strings.HasSuffix(p, "/") && p != "/"
	if !strings.HasPrefix(p, "/") {
		p = k.cwd + "/" + p
	}
	var parts []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			parts = append(parts, c)
		}
	}
	stack := []*Inode{k.root}
	names := []string{}
	for i, c := range parts {
		cur := stack[len(stack)-1]
		if cur.Kind != 'd' {
			return nil, nil, "", syscall.ENOTDIR
		}
		if check && !perm(cur, 1) {
			return nil, nil, "", syscall.EACCES
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		if len(c) > 255 {
			return nil, nil, "", syscall.ENAMETOOLONG
		}
		n := cur.Ents[c]
		last := i == len(parts)-1
		if n == nil {
			if last {
				if trail {
					return nil, nil, "", syscall.ENOENT
				}
				return nil, cur, c, syscall.ENOENT
			}
			return nil, nil, "", syscall.ENOENT
		}
		if n.Kind == 'l' && (!last || follow || trail) {
			t := n.Target
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(names, "/") + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			return k.walkDepth(t, follow, check, depth+1)
		}
		stack = append(stack, n)
		names = append(names, c)
	}
	n := stack[len(stack)-1]
	if trail && n.Kind != 'd' {
		return nil, nil, "", syscall.ENOTDIR
	}
	if len(stack) > 1 {
		dir = stack[len(stack)-2]
		base = names[len(names)-1]
	}
	return n, dir, base, 0
}

// canon names a path independently of links that lead to its directory.
func (k *Kernel) canon(p string) string { return k.abs(p) }

// same tells whether two names are of one file.
func (k *Kernel) same(a, b string) bool {
	if k.canon(a) == k.canon(b) {
		return true
	}
	x, e := k.walk(a, true, false)
	y, f := k.walk(b, true, false)
	return e == 0 && f == 0 && x != nil && x == y
}

func (k *Kernel) used() int {
	total := 0
	seen := map[*Inode]bool{}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		total += len(n.Data)
		for _, c := range n.Ents {
			rec(c)
		}
	}
	rec(k.root)
	return total
}

// Content returns the bytes a user would see at p.
func (k *Kernel) Content(p string) (string, bool) {
	n, e := k.walk(p, true, false)
	if e != 0 || n == nil || n.Kind != 'f' {
		return "", false
	}
	return string(n.Data), true
}

// Holds tells whether the file p exists and whether it holds exactly s.
func (k *Kernel) Holds(p, s string) (exists, same bool) {
	n, e := k.walk(p, true, false)
	if e != 0 || n == nil || n.Kind != 'f' {
		return false, false
	}
	return true, string(n.Data) == s
}

// Entry is one line of a snapshot.
type Entry struct {
	Path, Kind, Target string
	Mode               uint32
	UID, Ino, Nlink    int
	Data               string
}

// Snapshot lists the whole tree.
func (k *Kernel) Snapshot() []Entry {
	var out []Entry
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		out = append(out, Entry{p, string(n.Kind), n.Target, n.Mode, n.UID, n.ID, n.Nlink, string(n.Data)})
		if n.Kind == 'd' {
			var ks []string
			for c := range n.Ents {
				ks = append(ks, c)
			}
			sort.Strings(ks)
			for _, c := range ks {
				rec(strings.TrimSuffix(p, "/")+"/"+c, n.Ents[c])
			}
		}
	}
	rec("/", k.root)
	return out
}

// Files returns every regular file's content by path.
func (k *Kernel) Files() map[string]string {
	m := map[string]string{}
	for _, e := range k.Snapshot() {
		if e.Kind == "f" {
			m[e.Path] = e.Data
		}
	}
	return m
}

// Nodes turns the current tree back into an initial tree (links kept).
func (k *Kernel) Nodes() []Node {
	var out []Node
	first := map[int]string{}
	for _, e := range k.Snapshot() {
		if e.Path == "/" || e.Path == "/w" || e.Path == "/tmp" || e.Path == "/etc" {
			continue
		}
		uid := e.UID
		if uid == 0 {
			uid = -1
		}
		switch e.Kind {
		case "f":
			if p, ok := first[e.Ino]; ok {
				out = append(out, Node{Path: e.Path, Kind: "hard", Target: p})
				continue
			}
			first[e.Ino] = e.Path
			nd := Node{Path: e.Path, Data: BStr(e.Data), Mode: e.Mode, UID: uid}
			if e.Mode == 0 {
				nd.Kind = "nomode"
			}
			out = append(out, nd)
		case "d":
			out = append(out, Node{Path: e.Path, Kind: "dir", Mode: e.Mode, UID: uid})
		case "l":
			out = append(out, Node{Path: e.Path, Kind: "sym", Target: e.Target})
		}
	}
	return out
}

// OpenFDs counts descriptors of files opened during the run and still open.
func (k *Kernel) OpenFDs() int {
	n := 0
	for _, f := range k.fds {
		if f.stream < 0 || f.ino != nil {
			n++
		}
	}
	return n
}

func (k *Kernel) Digest() string {
	h := fnv.New64a()
	for _, e := range k.Log {
		fmt.Fprintf(h, "%s|%s|%s|%d|%s|%s|%d\n", e.Op, e.Path, e.Path2, e.N, e.Err, e.Fault, e.Step)
	}
	for _, e := range k.Snapshot() {
		fmt.Fprintf(h, "%q\n", fmt.Sprint(e))
	}
	h.Write(k.Stdout)
	h.Write([]byte{0})
	h.Write(k.Stderr)
	return fmt.Sprintf("%016x", h.Sum64())
}

// Trace renders the history for people.
func (k *Kernel) Trace(max int) []string {
	var out []string
	for i, e := range k.Log {
		if i >= max {
			out = append(out, fmt.Sprintf("... %d more", len(k.Log)-max))
			break
		}
		out = append(out, e.String())
	}
	return out
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	var n int
	for *(*byte)(unsafe.Pointer(p + uintptr(n))) != 0 {
		n++
	}
	return string(unsafe.Slice((*byte)(unsafe.Pointer(p)), n))
}

func mem(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

const (
	sysOpenat2    = 437
	sysStatx      = 332
	sysRenameat2  = 316
	sysFaccessat2 = 439
	sysFchmodat2  = 452
	sysGetrandom  = 318
	sysCopyRange  = 326
)

func atPath(k *Kernel, dirfd uintptr, p string) string {
	if strings.HasPrefix(p, "/") || int32(dirfd) == -100 {
		return p
	}
	if f := k.fds[int(int32(dirfd))]; f != nil {
		if p == "" {
			return f.path
		}
		return f.path + "/" + p
	}
	return p
}

// Syscall serves one system call; ok is false when the real kernel should.
func (k *Kernel) Syscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1 uintptr, err syscall.Errno, ok bool) {
	if k.dead {
		// the process no longer exists: nothing it does has an effect
		switch trap {
		case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_GETDENTS64:
			return 0, syscall.EIO, true
		case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
			return 0, syscall.EIO, true
		case syscall.SYS_FUTEX, syscall.SYS_NANOSLEEP:
			return 0, 0, false
		}
		return 0, syscall.EIO, true
	}
	switch trap {
	case syscall.SYS_OPEN:
		return k.open(cstr(a1), int(a2), uint32(a3))
	case syscall.SYS_CREAT:
		return k.open(cstr(a1), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, uint32(a2))
	case syscall.SYS_OPENAT:
		return k.open(atPath(k, a1, cstr(a2)), int(a3), uint32(a4))
	case syscall.SYS_READ:
		return k.read(int(int32(a1)), mem(a2, a3), -1)
	case syscall.SYS_PREAD64:
		return k.read(int(int32(a1)), mem(a2, a3), int64(a4))
	case syscall.SYS_WRITE:
		return k.write(int(int32(a1)), mem(a2, a3), -1)
	case syscall.SYS_PWRITE64:
		return k.write(int(int32(a1)), mem(a2, a3), int64(a4))
	case syscall.SYS_READV, syscall.SYS_WRITEV:
		if f := k.fds[int(int32(a1))]; f != nil {
			iov := unsafe.Slice((*syscall.Iovec)(unsafe.Pointer(a2)), int(a3))
			if trap == syscall.SYS_WRITEV {
				var b []byte
				for _, v := range iov {
					b = append(b, mem(uintptr(unsafe.Pointer(v.Base)), uintptr(v.Len))...)
				}
				return k.write(int(int32(a1)), b, -1)
			}
			if len(iov) > 0 {
				return k.read(int(int32(a1)), mem(uintptr(unsafe.Pointer(iov[0].Base)), uintptr(iov[0].Len)), -1)
			}
			return 0, 0, true
		}
	case syscall.SYS_CLOSE:
		return k.close(int(int32(a1)))
	case syscall.SYS_FSTAT:
		if f := k.fds[int(int32(a1))]; f != nil {
			return k.fstat(f, (*syscall.Stat_t)(unsafe.Pointer(a2)))
		}
	case syscall.SYS_STAT:
		return k.stat(cstr(a1), true, (*syscall.Stat_t)(unsafe.Pointer(a2)))
	case syscall.SYS_LSTAT:
		return k.stat(cstr(a1), false, (*syscall.Stat_t)(unsafe.Pointer(a2)))
	case syscall.SYS_NEWFSTATAT:
		if a4&0x1000 != 0 && cstr(a2) == "" {
			if f := k.fds[int(int32(a1))]; f != nil {
				return k.fstat(f, (*syscall.Stat_t)(unsafe.Pointer(a3)))
			}
			return 0, 0, false
		}
		return k.stat(atPath(k, a1, cstr(a2)), a4&0x100 == 0, (*syscall.Stat_t)(unsafe.Pointer(a3)))
	case sysStatx, sysOpenat2:
		return 0, syscall.ENOSYS, true
	case syscall.SYS_LSEEK:
		if f := k.fds[int(int32(a1))]; f != nil {
			if f.ino == nil {
				return 0, syscall.ESPIPE, true
			}
			o := int64(a2)
			switch int(a3) {
			case 1:
				o += f.off
			case 2:
				o += int64(len(f.ino.Data))
			}
			if o < 0 {
				return 0, syscall.EINVAL, true
			}
			f.off = o
			f.dirPos = 0
			return uintptr(o), 0, true
		}
	case syscall.SYS_FCNTL:
		if f := k.fds[int(int32(a1))]; f != nil {
			switch int(a2) {
			case syscall.F_GETFL:
				return uintptr(f.flags &^ syscall.O_NONBLOCK), 0, true
			case syscall.F_SETFL, syscall.F_SETFD:
				return 0, 0, true
			case syscall.F_SETLK, syscall.F_SETLKW:
				if f.ino == nil {
					return 0, 0, true
				}
				kind := map[int16]int{syscall.F_RDLCK: syscall.LOCK_SH, syscall.F_WRLCK: syscall.LOCK_EX, syscall.F_UNLCK: syscall.LOCK_UN}[(*syscall.Flock_t)(unsafe.Pointer(a3)).Type]
				if e := k.setLock(f, nil, kind, a2 == syscall.F_SETLKW); e != 0 {
					return ^uintptr(0), e, true
				}
				return 0, 0, true
			case syscall.F_GETLK:
				(*syscall.Flock_t)(unsafe.Pointer(a3)).Type = syscall.F_UNLCK
				return 0, 0, true
			case syscall.F_GETFD:
				return 1, 0, true
			case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
				nf := *f
				return uintptr(k.install(&nf)), 0, true
			}
			return 0, syscall.EINVAL, true
		}
	case syscall.SYS_DUP:
		if f := k.fds[int(int32(a1))]; f != nil {
			nf := *f
			return uintptr(k.install(&nf)), 0, true
		}
	case syscall.SYS_DUP2, syscall.SYS_DUP3:
		k.flag("dup2")
		return 0, syscall.ENOSYS, true
	case syscall.SYS_FLOCK:
		if f := k.fds[int(int32(a1))]; f != nil {
			if f.ino == nil {
				return 0, 0, true
			}
			if e := k.setLock(f, f.desc, int(a2)&^syscall.LOCK_NB, int(a2)&syscall.LOCK_NB == 0); e != 0 {
				return ^uintptr(0), e, true
			}
			return 0, 0, true
		}
	case syscall.SYS_IOCTL:
		if k.fds[int(int32(a1))] != nil {
			return 0, syscall.ENOTTY, true
		}
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		if f := k.fds[int(int32(a1))]; f != nil {
			ev := k.begin("fsync", f.path, "")
			if e := k.faultErrno(ev); e != 0 {
				return k.end(ev, 0, e)
			}
			return k.end(ev, 0, 0)
		}
	case syscall.SYS_SYNC, 306, syscall.SYS_SYNC_FILE_RANGE, syscall.SYS_FADVISE64:
		return 0, 0, true
	case syscall.SYS_FALLOCATE:
		return 0, syscall.EOPNOTSUPP, true
	case sysCopyRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE:
		if k.fds[int(int32(a1))] != nil || k.fds[int(int32(a3))] != nil || k.fds[int(int32(a2))] != nil {
			return 0, syscall.ENOSYS, true
		}
	case syscall.SYS_TRUNCATE:
		return k.truncate(cstr(a1), int64(a2))
	case syscall.SYS_FTRUNCATE:
		if f := k.fds[int(int32(a1))]; f != nil {
			ev := k.begin("truncate", f.path, "")
			ev.Mut, ev.Trunc = true, true
			if e := k.faultErrno(ev); e != 0 {
				return k.end(ev, 0, e)
			}
			if f.ino == nil || f.flags&3 == 0 {
				return k.end(ev, 0, syscall.EINVAL)
			}
			f.ino.setLen(int64(a2))
			f.ino.Mtime = k.now
			ev.Ino = f.ino.ID
			return k.end(ev, 0, 0)
		}
	case syscall.SYS_GETDENTS64:
		if f := k.fds[int(int32(a1))]; f != nil {
			return k.getdents(f, mem(a2, a3))
		}
	case syscall.SYS_GETCWD:
		b := mem(a1, a2)
		if len(b) < len(k.cwd)+1 {
			return 0, syscall.ERANGE, true
		}
		copy(b, k.cwd)
		b[len(k.cwd)] = 0
		return uintptr(len(k.cwd) + 1), 0, true
	case syscall.SYS_CHDIR:
		n, e := k.walk(k.abs(cstr(a1)), true, true)
		if e != 0 {
			return 0, e, true
		}
		if n.Kind != 'd' {
			return 0, syscall.ENOTDIR, true
		}
		k.cwd = k.abs(cstr(a1))
		return 0, 0, true
	case syscall.SYS_RENAME:
		return k.rename(cstr(a1), cstr(a2), 0)
	case syscall.SYS_RENAMEAT, sysRenameat2:
		fl := 0
		if trap == sysRenameat2 {
			fl = int(a5)
		}
		return k.rename(atPath(k, a1, cstr(a2)), atPath(k, a3, cstr(a4)), fl)
	case syscall.SYS_MKDIR:
		return k.mkdir(cstr(a1), uint32(a2))
	case syscall.SYS_MKDIRAT:
		return k.mkdir(atPath(k, a1, cstr(a2)), uint32(a3))
	case syscall.SYS_RMDIR:
		return k.unlink(cstr(a1), true)
	case syscall.SYS_UNLINK:
		return k.unlink(cstr(a1), false)
	case syscall.SYS_UNLINKAT:
		return k.unlink(atPath(k, a1, cstr(a2)), a3&0x200 != 0)
	case syscall.SYS_LINK:
		return k.link(cstr(a1), cstr(a2))
	case syscall.SYS_LINKAT:
		return k.link(atPath(k, a1, cstr(a2)), atPath(k, a3, cstr(a4)))
	case syscall.SYS_SYMLINK:
		return k.symlink(cstr(a1), cstr(a2))
	case syscall.SYS_SYMLINKAT:
		return k.symlink(cstr(a1), atPath(k, a2, cstr(a3)))
	case syscall.SYS_READLINK:
		return k.readlink(cstr(a1), mem(a2, a3))
	case syscall.SYS_READLINKAT:
		return k.readlink(atPath(k, a1, cstr(a2)), mem(a3, a4))
	case syscall.SYS_CHMOD:
		return k.attr("chmod", cstr(a1), int(a2), true)
	case syscall.SYS_FCHMODAT, sysFchmodat2:
		return k.attr("chmod", atPath(k, a1, cstr(a2)), int(a3), true)
	case syscall.SYS_FCHMOD:
		if f := k.fds[int(int32(a1))]; f != nil {
			return k.attr("chmod", f.path, int(a2), true)
		}
	case syscall.SYS_CHOWN:
		return k.attr("chown", cstr(a1), int(int32(a2)), true)
	case syscall.SYS_LCHOWN:
		return k.attr("chown", cstr(a1), int(int32(a2)), false)
	case syscall.SYS_FCHOWNAT:
		return k.attr("chown", atPath(k, a1, cstr(a2)), int(int32(a3)), a5&0x100 == 0)
	case syscall.SYS_FCHOWN:
		if f := k.fds[int(int32(a1))]; f != nil {
			return k.attr("chown", f.path, int(int32(a2)), true)
		}
	case syscall.SYS_UTIMENSAT:
		t := k.now
		if a3 != 0 {
			ts := (*[2]syscall.Timespec)(unsafe.Pointer(a3))
			switch ts[1].Nsec {
			case 1<<30 - 1: // UTIME_NOW
			case 1<<30 - 2: // UTIME_OMIT
				t = 0
			default:
				t = ts[1].Sec*1e9 + ts[1].Nsec
			}
		}
		if cstr(a2) == "" {
			return 0, 0, true
		}
		return k.attr("utime", atPath(k, a1, cstr(a2)), int(t), a4&0x100 == 0)
	case syscall.SYS_UTIMES, syscall.SYS_UTIME, syscall.SYS_FUTIMESAT:
		return 0, 0, true
	case syscall.SYS_ACCESS:
		return k.access(cstr(a1), uint32(a2))
	case syscall.SYS_FACCESSAT, sysFaccessat2:
		return k.access(atPath(k, a1, cstr(a2)), uint32(a3))
	case syscall.SYS_GETXATTR, syscall.SYS_LGETXATTR, syscall.SYS_SETXATTR, syscall.SYS_LISTXATTR:
		return 0, syscall.EOPNOTSUPP, true
	case syscall.SYS_UMASK:
		old := k.umask
		k.umask = uint32(a1) & 0o777
		return uintptr(old), 0, true
	case sysGetrandom:
		b := mem(a1, a2)
		for i := range b {
			b[i] = byte(i*7+1) ^ byte(k.rseed>>(i%8*8))
		}
		return uintptr(len(b)), 0, true
	case syscall.SYS_GETUID, syscall.SYS_GETEUID, syscall.SYS_GETGID, syscall.SYS_GETEGID:
		return simUID, 0, true
	case syscall.SYS_GETPID:
		return uintptr(4242 + k.rseed%1000), 0, true
	case syscall.SYS_GETPPID:
		return uintptr(3141 + k.rseed%1000), 0, true
	case syscall.SYS_GETTID:
		return uintptr(4242 + k.rseed%1000), 0, true
	case syscall.SYS_UNAME, syscall.SYS_FUTEX, syscall.SYS_SCHED_GETAFFINITY, syscall.SYS_EPOLL_CTL, syscall.SYS_EPOLL_WAIT, syscall.SYS_EPOLL_CREATE1,
		syscall.SYS_EVENTFD2, syscall.SYS_RT_SIGACTION, syscall.SYS_RT_SIGPROCMASK, syscall.SYS_MADVISE, syscall.SYS_GETRUSAGE, syscall.SYS_CLOCK_GETTIME, syscall.SYS_PRLIMIT64, syscall.SYS_GETRLIMIT:
		return 0, 0, false
	case syscall.SYS_MMAP:
		k.flag("mmap")
		return 0, syscall.ENOSYS, true
	}
	if fdCall(trap) {
		// a descriptor that does not exist in this machine
		return 0, syscall.EBADF, true
	}
	k.flag(fmt.Sprintf("syscall %d", trap))
	return 0, syscall.ENOSYS, true
}

func fdCall(trap uintptr) bool {
	switch trap {
	case syscall.SYS_READV, syscall.SYS_WRITEV, syscall.SYS_FSTAT, syscall.SYS_LSEEK, syscall.SYS_FCNTL, syscall.SYS_DUP, syscall.SYS_FLOCK, syscall.SYS_IOCTL, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC,
		sysCopyRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, syscall.SYS_FTRUNCATE, syscall.SYS_GETDENTS64, syscall.SYS_FCHMOD, syscall.SYS_FCHOWN:
		return true
	}
	return false
}

func (k *Kernel) flag(s string) {
	for _, u := range k.Unsupported {
		if u == s {
			return
		}
	}
	k.Unsupported = append(k.Unsupported, s)
}

func (n *Inode) setLen(l int64) {
	if l <= int64(len(n.Data)) {
		n.Data = n.Data[:l:l]
		return
	}
	nd := make([]byte, l)
	copy(nd, n.Data)
	n.Data = nd
}

func (k *Kernel) install(f *openFile) int {
	f.fd = fdNext
	fdNext++
	k.fds[f.fd] = f
	if n := k.OpenFDs(); n > k.maxOpen {
		k.maxOpen = n
	}
	return f.fd
}

// tick lets the clock follow the statements executed and then ns more.
//
//go:norace
func (k *Kernel) tick(ns int64) {
	f := max(k.slow, 1)
	if s := k.steps(); s > k.ticked {
		ns += (s - k.ticked) * 100
		k.ticked = s
	}
	k.now += ns * f
}

// begin starts one system call: it is an instant at which the process may be
// killed or a fault may strike.
// maxSys bounds the system calls of one run: a loop of them takes no steps.
const maxSys = 2_000_000

func (k *Kernel) begin(op, p, p2 string) *Event {
	k.nsys++
	if k.nsys == maxSys && k.tooMany != nil {
		k.tooMany()
	}
	k.tick(1000)
	ev := &Event{I: k.nsys, Op: op, Path: p, Path2: p2, Step: k.steps()}
	if k.kill != nil && k.kill.Sys == k.nsys && k.kill.Phase == "before" {
		ev.Fault = "kill-before"
		k.log(ev)
		k.dieNow("killed before " + op)
	}
	return ev
}

func (k *Kernel) dieNow(why string) {
	k.FaultFired["kill"]++
	k.die(why)
}

func (k *Kernel) log(ev *Event) {
	if len(k.Log) < k.logLimit {
		k.Log = append(k.Log, *ev)
	}
}

func (k *Kernel) end(ev *Event, r uintptr, e syscall.Errno) (uintptr, syscall.Errno, bool) {
	ev.N = int(r)
	if ev.Op == "open" && e == 0 {
		ev.FD = int(r) - k.fd0
		ev.N = 0
	}
	if e != 0 {
		ev.Err = errName(e)
	}
	k.log(ev)
	if ev.Mut && k.OnMut != nil {
		k.OnMut(ev)
	}
	if k.OnSys != nil {
		k.OnSys(ev)
	}
	if k.kill != nil && k.kill.Sys == k.nsys && k.kill.Phase == "after" {
		k.dieNow("killed after " + ev.Op)
	}
	return r, e, true
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EINTR:
		return "EINTR"
	case syscall.EACCES:
		return "EACCES"
	case syscall.ENOENT:
		return "ENOENT"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EPIPE:
		return "EPIPE"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EISDIR:
		return "EISDIR"
	}
	return e.Error()
}

// fault returns the planned fault that strikes this call, if any.
func (k *Kernel) fault(ev *Event) *Fault {
	var hit *Fault
	for _, f := range k.faults {
		if f.Op != ev.Op && f.Op != "any" && !(f.Op == "openw" && ev.Op == "open" && ev.Mut) {
			continue
		}
		if f.Path != "" && f.Path != ev.Path {
			continue
		}
		n := f.seen
		f.seen++
		strike := n == f.Nth || f.Every > 0 && n > f.Nth && (n-f.Nth)%f.Every == 0
		if strike && hit == nil {
			hit = f
		}
	}
	// a process is not interrupted for ever
	if hit == nil || hit.Kind != "intr" {
		k.intrRow = 0
	} else if k.intrRow++; k.intrRow > 3 {
		k.intrRow = 0
		return nil
	}
	if hit != nil && hit.Kind == "intr" && ev.Op != "open" && ev.Op != "read" && ev.Op != "write" {
		return nil
	}
	return hit
}

func (k *Kernel) fire(ev *Event, f *Fault, name string) {
	f.fired++
	ev.Fault = name
	k.FaultFired[name+"@"+ev.Op]++
}

// faultErrno applies faults that can only be plain errors.
func (k *Kernel) faultErrno(ev *Event) syscall.Errno {
	f := k.fault(ev)
	if f == nil {
		return 0
	}
	switch f.Kind {
	case "errno", "partial":
		e := syscall.Errno(f.Errno)
		k.fire(ev, f, errName(e))
		return e
	case "intr":
		k.fire(ev, f, "EINTR")
		return syscall.EINTR
	}
	return 0
}

func (k *Kernel) open(p string, flags int, mode uint32) (uintptr, syscall.Errno, bool) {
	ev := k.begin("open", k.canon(p), "")
	acc := flags & 3
	wr := acc != syscall.O_RDONLY
	if wr || flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		ev.Mut = true
	}
	if e := k.faultErrno(ev); e != 0 {
		ev.Mut = false
		return k.end(ev, 0, e)
	}
	if k.FDLimit > 0 && k.OpenFDs() >= k.FDLimit {
		ev.Mut = false
		ev.Fault = "EMFILE-limit"
		k.FaultFired["EMFILE-limit@open"]++
		return k.end(ev, 0, syscall.EMFILE)
	}
	n, dir, base, e := k.walk2(p, flags&syscall.O_NOFOLLOW == 0, true)
	if e == syscall.ENOENT && dir != nil && flags&syscall.O_CREAT != 0 {
		if !perm(dir, 2) {
			ev.Mut = false
			return k.end(ev, 0, syscall.EACCES)
		}
		n = k.newInode('f', mode&0o7777&^k.umask, simUID)
		n.Mtime = k.now
		dir.Ents[base] = n
		ev.Path2 = "created"
	} else if e != 0 {
		ev.Mut = false
		return k.end(ev, 0, e)
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			ev.Mut = false
			return k.end(ev, 0, syscall.EEXIST)
		}
		if n.Kind == 'l' {
			ev.Mut = false
			return k.end(ev, 0, syscall.ELOOP)
		}
		if n.Kind == 'd' && (wr || flags&syscall.O_CREAT != 0) {
			ev.Mut = false
			return k.end(ev, 0, syscall.EISDIR)
		}
		if flags&syscall.O_DIRECTORY != 0 && n.Kind != 'd' {
			return k.end(ev, 0, syscall.ENOTDIR)
		}
		if acc != syscall.O_WRONLY && !perm(n, 4) || wr && !perm(n, 2) {
			ev.Mut = false
			return k.end(ev, 0, syscall.EACCES)
		}
		if flags&syscall.O_TRUNC != 0 && wr && n.Kind == 'f' {
			ev.Trunc = true
			n.Data = nil
			n.Mtime = k.now
		} else if ev.Path2 == "" {
			ev.Mut = false // opening alone changes nothing
		}
	}
	ev.Ino = n.ID
	f := &openFile{ino: n, flags: flags, path: k.canon(p), stream: -1}
	f.desc = f
	return k.end(ev, uintptr(k.install(f)), 0)
}

func (k *Kernel) read(fd int, b []byte, at int64) (uintptr, syscall.Errno, bool) {
	f := k.fds[fd]
	if f == nil {
		if fd < 3 || fd >= fdStart {
			return 0, syscall.EBADF, true
		}
		return 0, 0, false
	}
	if f.ino == nil {
		return k.readStdin(f, b)
	}
	ev := k.begin("read", f.path, "")
	ev.FD, ev.Ino = fd-k.fd0, f.ino.ID
	if f.ino.Kind == 'd' {
		return k.end(ev, 0, syscall.EISDIR)
	}
	off := f.off
	if at >= 0 {
		off = at
	}
	avail := 0
	if off < int64(len(f.ino.Data)) {
		avail = len(f.ino.Data) - int(off)
	}
	if len(b) < avail {
		avail = len(b)
	}
	if flt := k.fault(ev); flt != nil {
		switch flt.Kind {
		case "errno", "partial":
			k.fire(ev, flt, errName(syscall.Errno(flt.Errno)))
			return k.end(ev, 0, syscall.Errno(flt.Errno))
		case "intr":
			k.fire(ev, flt, "EINTR")
			return k.end(ev, 0, syscall.EINTR)
		case "short":
			if n := max(1, flt.N, avail/300); n < avail {
				k.fire(ev, flt, "short")
				avail = n
			}
		}
	}
	if f.flags&3 == syscall.O_WRONLY {
		return k.end(ev, 0, syscall.EBADF)
	}
	copy(b[:avail], f.ino.Data[min(int(off), len(f.ino.Data)):])
	if at < 0 {
		f.off += int64(avail)
	}
	return k.end(ev, uintptr(avail), 0)
}

func (k *Kernel) readStdin(f *openFile, b []byte) (uintptr, syscall.Errno, bool) {
	if f.stream != 0 {
		return 0, syscall.EBADF, true
	}
	ev := k.begin("read", "<stdin>", "")
	if flt := k.fault(ev); flt != nil {
		switch flt.Kind {
		case "errno", "partial":
			k.fire(ev, flt, errName(syscall.Errno(flt.Errno)))
			return k.end(ev, 0, syscall.Errno(flt.Errno))
		case "intr":
			k.fire(ev, flt, "EINTR")
			return k.end(ev, 0, syscall.EINTR)
		}
	}
	for k.stdinPull != nil && k.stdinPos >= len(k.stdin) {
		c, more := k.stdinPull()
		if c != "" {
			k.stdin = append(k.stdin, c)
			continue
		}
		if !more {
			k.stdinPull = nil
			break
		}
		yieldIdle()
		if k.dead {
			return 0, syscall.EIO, true
		}
	}
	if k.stdinPos >= len(k.stdin) {
		if k.stdinErr != 0 {
			k.FaultFired[errName(syscall.Errno(k.stdinErr))+"@stdin"]++
			ev.Fault = "stream-error"
			return k.end(ev, 0, syscall.Errno(k.stdinErr))
		}
		return k.end(ev, 0, 0)
	}
	c := k.stdin[k.stdinPos]
	n := copy(b, c)
	if n < len(c) {
		k.stdin[k.stdinPos] = c[n:]
	} else {
		k.stdin[k.stdinPos] = ""
		k.stdinPos++
	}
	return k.end(ev, uintptr(n), 0)
}

func (k *Kernel) write(fd int, b []byte, at int64) (uintptr, syscall.Errno, bool) {
	f := k.fds[fd]
	if f == nil {
		if fd < 3 || fd >= fdStart {
			return 0, syscall.EBADF, true
		}
		return 0, 0, false
	}
	if f.ino == nil {
		return k.writeStream(f, b)
	}
	ev := k.begin("write", f.path, "")
	ev.FD, ev.Ino = fd-k.fd0, f.ino.ID
	if f.flags&3 == 0 {
		return k.end(ev, 0, syscall.EBADF)
	}
	n, e := len(b), syscall.Errno(0)
	if flt := k.fault(ev); flt != nil {
		switch flt.Kind {
		case "errno":
			k.fire(ev, flt, errName(syscall.Errno(flt.Errno)))
			return k.end(ev, 0, syscall.Errno(flt.Errno))
		case "intr":
			k.fire(ev, flt, "EINTR")
			return k.end(ev, 0, syscall.EINTR)
		case "short":
			if m := max(1, flt.N, n/300); m < n {
				k.fire(ev, flt, "short")
				n = m
			}
		case "partial": // some bytes reach the file although the call fails
			k.fire(ev, flt, "torn-"+errName(syscall.Errno(flt.Errno)))
			n = min(flt.N, n)
			e = syscall.Errno(flt.Errno)
		}
	}
	off := f.off
	if at >= 0 {
		off = at
	} else if f.flags&syscall.O_APPEND != 0 {
		off = int64(len(f.ino.Data))
	}
	if k.Capacity >= 0 && e == 0 && n > 0 {
		grow := int(off) + n - len(f.ino.Data)
		if room := k.Capacity - k.used(); grow > room {
			n -= grow - max(0, room)
			ev.Fault = "disk-full"
			k.FaultFired["disk-full@write"]++
			if n <= 0 {
				return k.end(ev, 0, syscall.ENOSPC)
			}
		}
	}
	mid := k.kill != nil && k.kill.Sys == k.nsys && k.kill.Phase == "mid"
	if mid {
		n = min(n, k.kill.N)
	}
	if n > 0 {
		ev.Mut = true
		f.ino.Mtime = k.now
		if int(off)+n > len(f.ino.Data) {
			if cap(f.ino.Data) >= int(off)+n {
				f.ino.Data = f.ino.Data[:int(off)+n]
			} else {
				nd := make([]byte, int(off)+n, (int(off)+n)*5/4)
				copy(nd, f.ino.Data)
				f.ino.Data = nd
			}
		}
		copy(f.ino.Data[off:], b[:n])
		if at < 0 {
			f.off = off + int64(n)
		}
	}
	if mid {
		ev.N = n
		ev.Fault = "kill-mid"
		k.log(ev)
		k.dieNow("killed in write")
	}
	if e != 0 {
		return k.end(ev, 0, e)
	}
	return k.end(ev, uintptr(n), 0)
}

func (k *Kernel) writeStream(f *openFile, b []byte) (uintptr, syscall.Errno, bool) {
	name := "<stdout>"
	if f.stream == 2 {
		name = "<stderr>"
	} else if f.stream == 0 {
		return 0, syscall.EBADF, true
	}
	ev := k.begin("write", name, "")
	n := len(b)
	if flt := k.fault(ev); flt != nil {
		switch flt.Kind {
		case "errno", "partial":
			k.fire(ev, flt, errName(syscall.Errno(flt.Errno)))
			return k.end(ev, 0, syscall.Errno(flt.Errno))
		case "intr":
			k.fire(ev, flt, "EINTR")
			return k.end(ev, 0, syscall.EINTR)
		case "short":
			if m := max(1, flt.N, n/300); m < n {
				k.fire(ev, flt, "short")
				n = m
			}
		}
	}
	if f.stream == 2 {
		k.Stderr = append(k.Stderr, b[:n]...)
		return k.end(ev, uintptr(n), 0)
	}
	if k.outMax > 0 && n > k.outMax {
		n = k.outMax
		k.FaultFired["short@stdout"]++
	}
	if k.outLimit >= 0 && n > 0 {
		if len(k.Stdout) >= k.outLimit {
			ev.Fault = "stream-error"
			k.FaultFired[errName(syscall.Errno(k.outErr))+"@stdout"]++
			return k.end(ev, 0, syscall.Errno(k.outErr))
		}
		n = min(n, k.outLimit-len(k.Stdout))
	}
	k.Stdout = append(k.Stdout, b[:n]...)
	if k.onOut != nil {
		k.onOut()
	}
	return k.end(ev, uintptr(n), 0)
}

func (k *Kernel) close(fd int) (uintptr, syscall.Errno, bool) {
	f := k.fds[fd]
	if f == nil {
		if fd < 3 || fd >= fdStart {
			return 0, syscall.EBADF, true
		}
		return 0, 0, false
	}
	if f.ino == nil {
		delete(k.fds, fd)
		return 0, 0, true
	}
	ev := k.begin("close", f.path, "")
	ev.FD = fd - k.fd0
	delete(k.fds, fd) // Linux releases the descriptor even when close fails
	if len(*k.locks) > 0 {
		k.setLock(f, nil, syscall.LOCK_UN, false)
	}
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	return k.end(ev, 0, 0)
}

func (k *Kernel) fillStat(n *Inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Dev: 1, Ino: uint64(n.ID), Nlink: uint64(n.Nlink), Uid: uint32(n.UID), Gid: uint32(n.UID), Size: int64(len(n.Data)), Blksize: 4096}
	st.Mode = n.Mode
	switch n.Kind {
	case 'f':
		st.Mode |= syscall.S_IFREG
	case 'd':
		st.Mode |= syscall.S_IFDIR
	case 'l':
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.Target))
	}
	t := n.Mtime
	if t == 0 {
		t = 1690000000e9 + int64(n.ID)*1e9
	}
	st.Mtim.Sec, st.Mtim.Nsec = t/1e9, t%1e9
	st.Ctim = st.Mtim
}

func (k *Kernel) fstat(f *openFile, st *syscall.Stat_t) (uintptr, syscall.Errno, bool) {
	if f.ino == nil {
		*st = syscall.Stat_t{Mode: syscall.S_IFIFO | 0o600, Uid: simUID, Gid: simUID, Nlink: 1, Blksize: 4096}
		return 0, 0, true
	}
	ev := k.begin("stat", f.path, "")
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	k.fillStat(f.ino, st)
	return k.end(ev, 0, 0)
}

func (k *Kernel) stat(p string, follow bool, st *syscall.Stat_t) (uintptr, syscall.Errno, bool) {
	ev := k.begin("stat", k.canon(p), "")
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	n, e := k.walk(p, follow, true)
	if e != 0 {
		return k.end(ev, 0, e)
	}
	k.fillStat(n, st)
	return k.end(ev, 0, 0)
}

func (k *Kernel) truncate(p string, l int64) (uintptr, syscall.Errno, bool) {
	ev := k.begin("truncate", k.canon(p), "")
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	n, e := k.walk(p, true, true)
	if e != 0 {
		return k.end(ev, 0, e)
	}
	if n.Kind != 'f' || l < 0 {
		return k.end(ev, 0, syscall.EINVAL)
	}
	if !perm(n, 2) {
		return k.end(ev, 0, syscall.EACCES)
	}
	ev.Mut, ev.Trunc, ev.Ino = true, true, n.ID
	n.setLen(l)
	n.Mtime = k.now
	return k.end(ev, 0, 0)
}

func (k *Kernel) getdents(f *openFile, b []byte) (uintptr, syscall.Errno, bool) {
	ev := k.begin("readdir", f.path, "")
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	if f.ino == nil || f.ino.Kind != 'd' {
		return k.end(ev, 0, syscall.ENOTDIR)
	}
	var names []string
	for c := range f.ino.Ents {
		names = append(names, c)
	}
	sort.Strings(names)
	w := 0
	for f.dirPos < len(names) {
		c := names[f.dirPos]
		n := f.ino.Ents[c]
		l := (19 + len(c) + 1 + 7) &^ 7
		if w+l > len(b) {
			break
		}
		rec := b[w : w+l]
		clear(rec)
		*(*uint64)(unsafe.Pointer(&rec[0])) = uint64(n.ID)
		*(*uint64)(unsafe.Pointer(&rec[8])) = uint64(f.dirPos + 1)
		*(*uint16)(unsafe.Pointer(&rec[16])) = uint16(l)
		rec[18] = map[byte]byte{'f': 8, 'd': 4, 'l': 10}[n.Kind]
		copy(rec[19:], c)
		w += l
		f.dirPos++
	}
	return k.end(ev, uintptr(w), 0)
}

func (k *Kernel) rename(p, q string, flags int) (uintptr, syscall.Errno, bool) {
	ev := k.begin("rename", k.canon(p), k.canon(q))
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	n, d1, b1, e := k.walk2(p, false, true)
	if e != 0 {
		return k.end(ev, 0, e)
	}
	t, d2, b2, e := k.walk2(q, false, true)
	if e != 0 && (e != syscall.ENOENT || d2 == nil) {
		return k.end(ev, 0, e)
	}
	if d1 == nil || d2 == nil {
		return k.end(ev, 0, syscall.EBUSY)
	}
	if !perm(d1, 2) || !perm(d2, 2) {
		return k.end(ev, 0, syscall.EACCES)
	}
	if t != nil {
		if flags&1 != 0 {
			return k.end(ev, 0, syscall.EEXIST)
		}
		if t == n {
			return k.end(ev, 0, 0)
		}
		if t.Kind == 'd' && n.Kind != 'd' {
			return k.end(ev, 0, syscall.EISDIR)
		}
		if t.Kind == 'd' && len(t.Ents) > 0 {
			return k.end(ev, 0, syscall.ENOTEMPTY)
		}
		t.Nlink--
	}
	delete(d1.Ents, b1)
	d2.Ents[b2] = n
	ev.Mut = true
	ev.Ino = n.ID
	return k.end(ev, 0, 0)
}

func (k *Kernel) mkdir(p string, mode uint32) (uintptr, syscall.Errno, bool) {
	ev := k.begin("mkdir", k.canon(p), "")
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	n, d, b, e := k.walk2(strings.TrimRight(p, "/"), false, true)
	if n != nil {
		return k.end(ev, 0, syscall.EEXIST)
	}
	if d == nil {
		return k.end(ev, 0, e)
	}
	if !perm(d, 2) {
		return k.end(ev, 0, syscall.EACCES)
	}
	nd := k.newInode('d', mode&0o7777&^k.umask, simUID)
	nd.Nlink = 2
	d.Ents[b] = nd
	ev.Mut = true
	return k.end(ev, 0, 0)
}

func (k *Kernel) unlink(p string, dir bool) (uintptr, syscall.Errno, bool) {
	ev := k.begin("unlink", k.canon(p), "")
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	n, d, b, e := k.walk2(p, false, true)
	if e != 0 {
		return k.end(ev, 0, e)
	}
	if d == nil {
		return k.end(ev, 0, syscall.EBUSY)
	}
	if !perm(d, 2) {
		return k.end(ev, 0, syscall.EACCES)
	}
	if n.Kind == 'd' && !dir {
		return k.end(ev, 0, syscall.EISDIR)
	}
	if n.Kind != 'd' && dir {
		return k.end(ev, 0, syscall.ENOTDIR)
	}
	if dir && len(n.Ents) > 0 {
		return k.end(ev, 0, syscall.ENOTEMPTY)
	}
	delete(d.Ents, b)
	n.Nlink--
	ev.Mut = true
	ev.Ino = n.ID
	return k.end(ev, 0, 0)
}

func (k *Kernel) link(p, q string) (uintptr, syscall.Errno, bool) {
	ev := k.begin("link", k.canon(p), k.canon(q))
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	n, e := k.walk(p, false, true)
	if e != 0 {
		return k.end(ev, 0, e)
	}
	t, d, b, e := k.walk2(q, false, true)
	if t != nil {
		return k.end(ev, 0, syscall.EEXIST)
	}
	if d == nil {
		return k.end(ev, 0, e)
	}
	if !perm(d, 2) {
		return k.end(ev, 0, syscall.EACCES)
	}
	n.Nlink++
	d.Ents[b] = n
	ev.Mut = true
	return k.end(ev, 0, 0)
}

func (k *Kernel) symlink(target, q string) (uintptr, syscall.Errno, bool) {
	ev := k.begin("symlink", k.canon(q), target)
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	t, d, b, e := k.walk2(q, false, true)
	if t != nil {
		return k.end(ev, 0, syscall.EEXIST)
	}
	if d == nil {
		return k.end(ev, 0, e)
	}
	if !perm(d, 2) {
		return k.end(ev, 0, syscall.EACCES)
	}
	n := k.newInode('l', 0o777, simUID)
	n.Target = target
	d.Ents[b] = n
	ev.Mut = true
	return k.end(ev, 0, 0)
}

func (k *Kernel) readlink(p string, b []byte) (uintptr, syscall.Errno, bool) {
	n, e := k.walk(p, false, true)
	if e != 0 {
		return 0, e, true
	}
	if n.Kind != 'l' {
		return 0, syscall.EINVAL, true
	}
	return uintptr(copy(b, n.Target)), 0, true
}

func (k *Kernel) attr(op, p string, v int, follow bool) (uintptr, syscall.Errno, bool) {
	ev := k.begin(op, k.canon(p), "")
	if e := k.faultErrno(ev); e != 0 {
		return k.end(ev, 0, e)
	}
	n, e := k.walk(p, follow, true)
	if e != 0 {
		return k.end(ev, 0, e)
	}
	if n.UID != simUID {
		return k.end(ev, 0, syscall.EPERM)
	}
	if op == "chmod" {
		ev.Mut = n.Mode != uint32(v)&0o7777
		n.Mode = uint32(v) & 0o7777
	} else if op == "utime" {
		ev.Mut = true
		if v != 0 {
			n.Mtime = int64(v)
		}
	} else if v >= 0 && v != n.UID {
		return k.end(ev, 0, syscall.EPERM)
	}
	return k.end(ev, 0, 0)
}

func (k *Kernel) access(p string, mode uint32) (uintptr, syscall.Errno, bool) {
	n, e := k.walk(p, true, true)
	if e != 0 {
		return 0, e, true
	}
	if mode != 0 && !perm(n, mode&7) {
		return 0, syscall.EACCES, true
	}
	return 0, 0, true
}
