"""Builds the simulation binary from /repo's current working tree.

Nothing is written into /repo: every change to the program (step calls), to the
Go runtime and standard library (seams for system calls, randomness, time,
exit, signals, panics) and the harness itself is a `go build -overlay`.
"""
import json, os, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")


class BuildError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
        for kv in out.decode().split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k.startswith("GO") or k in ("PATH", "HOME"):
                    e[k] = v
    except (OSError, subprocess.CalledProcessError):
        e.setdefault("GOFLAGS", "-mod=mod -buildvcs=false")
    e["CGO_ENABLED"] = "1"
    return e


def sub(text, rel, pairs):
    for a, b in pairs:
        if text.count(a) != 1:
            raise BuildError(f"GOROOT file {rel} has {text.count(a)} places like {a[:60]!r}, want 1")
        text = text.replace(a, b)
    return text


GOROOT_PATCHES = {
    "syscall/zsyscall_linux_amd64.go": [(f"r0, _ := rawSyscallNoError({n}", f"r0, _ := verifNoError({n}") for n in
        ("SYS_GETPID,", "SYS_GETPPID,", "SYS_GETTID,", "SYS_UMASK,", "SYS_GETEGID,", "SYS_GETEUID,", "SYS_GETGID,", "SYS_GETUID,")],
    "syscall/syscall_linux.go": [
        ("//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap",
         """// VerifHook, when set, sees every system call first.
var VerifHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, ok bool)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if h := VerifHook; h != nil {
		if r1, r2, err, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2, err
		}
	}
	return verifRealSyscall(trap, a1, a2, a3)
}

//go:uintptrkeepalive
//go:nosplit
func verifRealSyscall(trap"""),
        ("//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap",
         """//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if h := VerifHook; h != nil {
		if r1, r2, err, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, err
		}
	}
	return verifRealSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func verifRealSyscall6(trap"""),
        ("func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n",
         """func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)

func verifNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {
	if h := VerifHook; h != nil {
		if r1, r2, _, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2
		}
	}
	return rawSyscallNoError(trap, a1, a2, a3)
}
"""),
    ],
    "runtime/proc.go": [
        ("\t\t\tpreemptone(pp)\n\t\t\t// If pp is in a syscall", "\t\t\t// If pp is in a syscall"),
        # which goroutine runs next is drawn from the seed, and the runtime's own
        # goroutines, which come and go with real time, do not disturb the draw
        ("if randomizeScheduler && next && randn(2) == 0 {", "if verifPick && next && !isSystemGoroutine(gp, false) && verifSched()%2 == 0 {"),
        ("const randomizeScheduler = raceenabled", "const randomizeScheduler = false"),
        ("if pp.schedtick%61 == 0 && ", "if !verifRandOn && pp.schedtick%61 == 0 && "),
        ("\tn = min(n, sched.runq.size, sched.runq.size/gomaxprocs+1)\n", """
	if verifRandOn {
		users := uint32(0)
		var prev, gp1 *g
		for gp1 = sched.runq.head.ptr(); gp1 != nil; gp1 = gp1.schedlink.ptr() {
			if isSystemGoroutine(gp1, false) {
				break
			}
			prev = gp1
			users++
		}
		if gp1 == nil {
			prev, gp1 = nil, sched.runq.head.ptr()
			if verifPick && users > 1 {
				for n := verifSched() % users; n > 0; n-- {
					prev, gp1 = gp1, gp1.schedlink.ptr()
				}
			}
		}
		if prev == nil {
			return sched.runq.pop(), q
		}
		prev.schedlink = gp1.schedlink
		if sched.runq.tail.ptr() == gp1 {
			sched.runq.tail.set(prev)
		}
		gp1.schedlink = 0
		sched.runq.size--
		return gp1, q
	}
	n = min(n, sched.runq.size, sched.runq.size/gomaxprocs+1)
"""),
        # nor is the processor taken away from a thread in a real system call
        ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif verifRandOn {\n\t\treturn 0\n\t}\n"),
    ],
    "runtime/rand.go": [
        ("\tglobalRand.state.Init(*seed)\n",
         "\tclear(seed[:])\n\tseed[0] = 1\n\tglobalRand.state.Init(*seed)\n"),
        ("func rand() uint64 {\n", "func rand() uint64 {\n\tif verifRandOn {\n\t\treturn verifRand()\n\t}\n"),
        ("// readTimeRandom stretches",
         """// VerifReseed makes every later random choice of this thread, and the
// scheduler's fairness counter, a function of s.
func VerifReseed(s uint64) {
	mp := acquirem()
	verifRandState, verifRandOn = s, s != 0
	verifSchedState = s ^ 0x5555
	verifSeed, verifTick = s, -1
	mp.p.ptr().schedtick = 0
	releasem(mp)
}

// One generator for all threads, so that it does not matter which one asks,
// and one for the scheduler.
var verifRandState, verifSchedState, verifSeed uint64

// VerifTick, when set, counts the steps of the program. What is drawn in a step
// depends on the seed and the step, so that a cache which a library fills when it is
// first used, in this process or in an earlier one, shifts nothing after it.
var VerifTick *int64
var verifTick int64

func verifSched() uint32 {
	verifSchedState += 0x9e3779b97f4a7c15
	z := verifSchedState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return uint32(z >> 33)
}

var verifRandOn, verifPick bool

// VerifPick turns the drawing of goroutines on or off.
func VerifPick(on bool) { verifPick = on }

//go:nosplit
func verifRand() uint64 {
	if VerifTick != nil && *VerifTick != verifTick {
		verifTick = *VerifTick
		verifRandState = verifSeed ^ uint64(verifTick)*0xd6e8feb86659fd93
	}
	verifRandState += 0x9e3779b97f4a7c15
	z := verifRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// VerifGoid identifies the calling goroutine.
func VerifGoid() uint64 { return getg().goid }

// VerifParent identifies the goroutine that started the calling one.
func VerifParent() uint64 { return getg().parentGoid }

// VerifPanic, when set, is called for a panic nobody recovered.
var VerifPanic func(v any)

// readTimeRandom stretches"""),
    ],
    "runtime/select.go": [
        ("j := cheaprandn(uint32(norder + 1))", "j := randn(uint32(norder + 1))"),
    ],
    "runtime/panic.go": [
        ("\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return\n",
         "\tif VerifPanic != nil {\n\t\tVerifPanic(p.arg)\n\t}\n\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return\n"),
    ],
    "runtime/time.go": [
        ("//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.verifRealSleep\n"),
    ],
    "time/sleep.go": [
        ("func Sleep(d Duration)\n",
         "func Sleep(d Duration) {\n\tif VerifSleep != nil && VerifSleep(d) {\n\t\treturn\n\t}\n\tverifRealSleep(d)\n}\n\n"
         "// VerifSleep, when set, may take over a sleep; VerifNow the clock.\nvar VerifSleep func(d Duration) bool\nvar VerifNow func() (ns int64, ok bool)\n\nfunc verifRealSleep(d Duration)\n"),
    ],
    "time/time.go": [
        ("func Now() Time {\n",
         "func Now() Time {\n\tif VerifNow != nil {\n\t\tif ns, ok := VerifNow(); ok {\n\t\t\treturn Time{uint64(ns % 1e9), ns/1e9 + unixToInternal, Local}\n\t\t}\n\t}\n"),
    ],
    "os/proc.go": [
        ("func Exit(code int) {\n",
         "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n"),
        ("// Exit causes the current program to exit",
         "// VerifExit, when set, sees every exit of the program first.\nvar VerifExit func(code int)\n\n// Exit causes the current program to exit"),
    ],
    "os/signal/signal.go": [
        ("\thandlers.Lock()\n\tdefer handlers.Unlock()\n\n\t// Lazily create the handler. If all",
         "\tif VerifNotify != nil && VerifNotify(c, sig, \"notify\") {\n\t\treturn\n\t}\n\thandlers.Lock()\n\tdefer handlers.Unlock()\n\n\t// Lazily create the handler. If all"),
        ("var handlers struct {", "// VerifNotify, when set, may take over a registration.\nvar VerifNotify func(c chan<- os.Signal, sig []os.Signal, op string) bool\n\nvar handlers struct {"),
        ("\tcancel(sig, ignoreSignal)", "\tif VerifNotify != nil && VerifNotify(nil, sig, \"ignore\") {\n\t\treturn\n\t}\n\tcancel(sig, ignoreSignal)"),
        ("\tcancel(sig, disableSignal)", "\tif VerifNotify != nil && VerifNotify(nil, sig, \"reset\") {\n\t\treturn\n\t}\n\tcancel(sig, disableSignal)"),
        ("func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n\tif VerifNotify != nil && VerifNotify(c, nil, \"stop\") {\n\t\treturn\n\t}\n"),
    ],
    "internal/sync/mutex.go": [
        ("starvationThresholdNs = 1e6", "starvationThresholdNs = 1e18"),
    ],
}


def build(work, race=False, jobs=None):
    """Returns the path of the simulation binary and some facts for evidence."""
    t0 = time.time()
    env = goenv()
    goroot = subprocess.run(["go", "env", "GOROOT"], env=env, capture_output=True, text=True, check=True).stdout.strip()
    os.makedirs(work, exist_ok=True)
    rep = {}
    for rel, pairs in GOROOT_PATCHES.items():
        src = os.path.join(goroot, "src", rel)
        with open(src) as f:
            text = sub(f.read(), rel, pairs)
        dst = os.path.join(work, "goroot", rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "w") as f:
            f.write(text)
        rep[src] = dst
    mod = None
    with open(os.path.join(REPO, "go.mod")) as f:
        for line in f:
            if line.startswith("module "):
                mod = line.split()[1]
    if not mod:
        raise BuildError("no module line in go.mod")

    # start compiling the patched standard library while the sources are instrumented
    ovstd = os.path.join(work, "std.json")
    with open(ovstd, "w") as f:
        json.dump({"Replace": rep}, f)
    args = ["-race"] if race else []
    warm = subprocess.Popen(["go", "build", "-overlay", ovstd, *args, "encoding/json", "net/http", "testing", "encoding/xml", "text/template", "encoding/csv", "os/signal", "runtime/debug"],
                            cwd=REPO, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    instr = os.path.join(work, "instr")
    r = subprocess.run(["go", "build", "-o", instr, os.path.join(SIM, "instr", "main.go")], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        warm.kill()
        raise BuildError("instrumenter: " + r.stderr)
    files = []
    for d, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x not in ("testdata", "vendor"))
        for f in sorted(fs):
            if f.endswith(".go") and not f.endswith("_test.go"):
                files.append(os.path.join(d, f))
    iout = os.path.join(work, "isrc")
    os.makedirs(iout, exist_ok=True)
    r = subprocess.run([instr, mod, iout, *files], capture_output=True, text=True)
    if r.returncode:
        warm.kill()
        raise BuildError("instrumenting: " + r.stderr)
    for line in r.stdout.splitlines():
        a, b = line.split("\t")
        rep[a] = b
    rep[os.path.join(REPO, "internal", "verifvy", "vy.go")] = os.path.join(SIM, "vy", "vy.go")
    for f in sorted(os.listdir(os.path.join(SIM, "h"))):
        if f.endswith(".go"):
            rep[os.path.join(REPO, "cmd", "texted", "zz_verif_" + f[:-3] + "_test.go")] = os.path.join(SIM, "h", f)
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    out = os.path.join(work, "sim" + ("-race" if race else ""))
    if warm.wait() and False:
        raise BuildError("std")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-gcflags=all=-d=checkptr=0" if race else "-gcflags=", "-o", out, *args, "./cmd/texted"],
                       cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise BuildError("building the simulation: " + (r.stdout + r.stderr)[-4000:])
    return out, {"instrumented_files": len(files), "build_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    print(build(sys.argv[1], race="race" in sys.argv[2:]))
