package main

import (
	"runtime"
	"syscall"
	"unsafe"

	vy "github.com/dhamidi/texted/internal/verifvy"
)

// Several concurrent users of the library in one simulated process. Their
// system calls are served by the driver goroutine on the one machine, without
// any synchronisation the race detector could see: whatever orders two
// accesses in such a run is in the code under test.

const bounceLen = 1 << 18

type caller struct {
	goids   [16]uint64
	n       int
	k       *Kernel
	exiting bool
	pending bool
	trap    uintptr
	a       [6]uintptr
	r1      uintptr
	err     syscall.Errno
	ok      bool
	bounce  [3][]byte
}

var callerTab [16]*caller

// callerOf finds the caller a goroutine works for; a goroutine started by one
// works for the same caller.
//
//go:norace
func callerOf(id uint64) *caller {
	for i := 0; i < len(callerTab) && callerTab[i] != nil; i++ {
		c := callerTab[i]
		for j := 0; j < c.n; j++ {
			if c.goids[j] == id {
				return c
			}
		}
	}
	if p := runtime.VerifParent(); p != 0 && id == runtime.VerifGoid() {
		for i := 0; i < len(callerTab) && callerTab[i] != nil; i++ {
			c := callerTab[i]
			for j := 0; j < c.n; j++ {
				if c.goids[j] == p && c.n < len(c.goids) {
					c.goids[c.n] = id
					c.n++
					return c
				}
			}
		}
	}
	return nil
}

// what the arguments of a system call point to
var ptrArgs = map[uintptr]string{
	syscall.SYS_OPEN: "p", syscall.SYS_CREAT: "p", syscall.SYS_OPENAT: ".p",
	syscall.SYS_READ: ".o", syscall.SYS_PREAD64: ".o", syscall.SYS_WRITE: ".i", syscall.SYS_PWRITE64: ".i",
	syscall.SYS_GETDENTS64: ".o", syscall.SYS_FSTAT: ".s", syscall.SYS_STAT: "ps", syscall.SYS_LSTAT: "ps",
	syscall.SYS_NEWFSTATAT: ".ps", syscall.SYS_TRUNCATE: "p", syscall.SYS_RENAME: "pp", syscall.SYS_RENAMEAT: ".p.p",
	sysRenameat2: ".p.p", syscall.SYS_MKDIR: "p", syscall.SYS_MKDIRAT: ".p", syscall.SYS_RMDIR: "p", syscall.SYS_UNLINK: "p",
	syscall.SYS_UNLINKAT: ".p", syscall.SYS_LINK: "pp", syscall.SYS_LINKAT: ".p.p", syscall.SYS_SYMLINK: "pp",
	syscall.SYS_SYMLINKAT: "p.p", syscall.SYS_CHMOD: "p", syscall.SYS_FCHMODAT: ".p", syscall.SYS_ACCESS: "p", syscall.SYS_FACCESSAT: ".p",
	sysFaccessat2: ".p", syscall.SYS_CHOWN: "p", syscall.SYS_LCHOWN: "p", syscall.SYS_FCHOWNAT: ".p", syscall.SYS_READLINK: "po", syscall.SYS_READLINKAT: ".po",
}

// shape is ptrArgs by number, so that callers read it without a map.
var shape [512]string

func init() {
	for t, s := range ptrArgs {
		shape[t] = s
	}
}

//go:norace
func copyBytes(dst, src uintptr, n int) {
	for i := 0; i < n; i++ {
		*(*byte)(unsafe.Pointer(dst + uintptr(i))) = *(*byte)(unsafe.Pointer(src + uintptr(i)))
	}
}

//go:norace
func (r *run) callerCall(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno, bool) {
	switch trap {
	case syscall.SYS_FUTEX, syscall.SYS_NANOSLEEP, syscall.SYS_MADVISE, syscall.SYS_EPOLL_CTL, syscall.SYS_EPOLL_CREATE1, syscall.SYS_EVENTFD2:
		return 0, 0, 0, false
	}
	if trap == syscall.SYS_CLOSE && int32(a1) >= fdStart && int(a1) < r.k.fd0 {
		return 0, 0, syscall.EBADF, true
	}
	c := callerOf(runtime.VerifGoid())
	if c == nil || r.done {
		return 0, 0, syscall.EBADF, true
	}
	for c.pending { // another goroutine of this caller is in a system call
		runtime.Gosched()
	}
	a := [6]uintptr{a1, a2, a3, a4, a5, a6}
	orig := a
	sh := ""
	if trap < uintptr(len(shape)) {
		sh = shape[trap]
	}
	nb := 0
	for i := 0; i < len(sh); i++ {
		if sh[i] == '.' || a[i] == 0 {
			continue
		}
		b := uintptr(unsafe.Pointer(unsafe.SliceData(c.bounce[nb])))
		nb++
		switch sh[i] {
		case 'p':
			n := 0
			for *(*byte)(unsafe.Pointer(a[i] + uintptr(n))) != 0 && n < bounceLen-1 {
				n++
			}
			copyBytes(b, a[i], n+1)
		case 'i':
			if a[i+1] > bounceLen {
				a[i+1] = bounceLen
			}
			copyBytes(b, a[i], int(a[i+1]))
		case 'o':
			if a[i+1] > bounceLen {
				a[i+1] = bounceLen
			}
		case 's':
			copyBytes(b, a[i], int(unsafe.Sizeof(syscall.Stat_t{})))
		}
		a[i] = b
	}
	c.trap, c.a, c.pending = trap, a, true
	for c.pending && !r.done {
		runtime.Gosched()
	}
	if c.pending {
		c.pending = false
		return ^uintptr(0), 0, syscall.EIO, true
	}
	if !c.ok {
		return 0, 0, 0, false
	}
	if c.err != 0 {
		return ^uintptr(0), 0, c.err, true
	}
	for i := 0; i < len(sh); i++ {
		switch sh[i] {
		case 'o':
			if n := int(c.r1); n > 0 && n <= bounceLen {
				copyBytes(orig[i], a[i], n)
			}
		case 's':
			if orig[i] != 0 {
				copyBytes(orig[i], a[i], int(unsafe.Sizeof(syscall.Stat_t{})))
			}
		}
	}
	return c.r1, 0, 0, true
}

// serve performs one waiting system call, if there is one; which, when there
// are several, is the scheduler's choice.
//
//go:norace
func (r *run) serve() bool {
	n := 0
	for _, c := range r.callers {
		if c.pending {
			n++
		}
	}
	if n == 0 {
		return false
	}
	w := r.rng.N(n)
	for _, c := range r.callers {
		if !c.pending {
			continue
		}
		if w--; w >= 0 {
			continue
		}
		r.servee(c)
		c.pending = false
		break
	}
	return true
}

//go:norace
func (r *run) servee(c *caller) {
	k := c.k
	r1, e, ok := k.Syscall(c.trap, c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5])
	c.r1, c.err, c.ok = r1, e, ok
	r.mix(uint64(c.trap))
}

//go:norace
func (c *caller) enter() {
	c.goids[0] = runtime.VerifGoid()
	c.n = 1
}

//go:norace
func (r *run) left(left *int) {
	if *left--; *left == 0 {
		r.done = true
		if r.res.Steps == 0 {
			r.res.Steps = vy.Steps
		}
	}
}

// RunCallers executes the bodies concurrently on one machine.
func RunCallers(k *Kernel, o Opts, bodies []func()) *Result {
	nRuns++
	if nRuns%64 == 0 {
		runtime.GC()
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
	}
	vy.Steps = 0
	if !raceBuild {
		runtime.VerifReseed(o.RSeed*2654435761 + 98)
		vy.Reset()
	}
	vy.Steps = 0
	r := beginRun(k, o)
	start := k.now
	for i := range callerTab {
		callerTab[i] = nil
	}
	for i := range bodies {
		c := &caller{k: k}
		for j := range c.bounce {
			c.bounce[j] = make([]byte, bounceLen)
		}
		callerTab[i] = c
		r.callers = append(r.callers, c)
	}
	r.stdio()
	cur = r
	vy.Steps = 0
	r.setNext()
	vy.Active = true
	left := len(bodies)
	fin := make(chan int, len(bodies))
	for i := range bodies {
		c, body := r.callers[i], bodies[i]
		go func() {
			c.enter()
			defer func() {
				fin <- 1
				r.left(&left)
			}()
			body()
		}()
	}
	r.drive()
	if !r.res.Stuck && r.res.Panic == "" && !r.res.Budget {
		for range bodies {
			<-fin
		}
		r.res.Returned = true
		r.res.Exit = 0
	}
	k.dead = true
	r.finish()
	r.realStdio()
	for i := range callerTab {
		callerTab[i] = nil
	}
	st.mixDigest(r.res)
	nSteps += r.res.Steps
	maxSteps = max(maxSteps, r.res.Steps)
	nSys += int64(k.nsys)
	simNs += k.now - start + max(r.res.Steps-k.ticked, 0)*100
	return r.res
}
