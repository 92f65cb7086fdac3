// Package verifvy is the step seam of the simulator. Calls to Y are inserted
// before every statement of the code under test when a check builds it (see
// sim/instr); this package exists only in the build overlay, never in /repo.
package verifvy

// Active is true while a simulated run is in progress.
var Active bool

// Steps counts executed statements of the current run; Hook is called when
// it reaches Next.
var (
	Steps int64
	Next  int64
	Hook  func()
)

// Y marks one step of the code under test.
//
//go:norace
//go:noinline
func Y() {
	if Active {
		Steps++
		if Steps >= Next {
			Hook()
		}
	}
}

type pkgReset struct {
	name string
	fns  [2][]func()
}

var resetPkgs []*pkgReset

// OnReset adds a function that puts package name back as it is when a process
// starts: its variables (phase 0), then its init functions (phase 1).
func OnReset(name string, phase int, f func()) {
	for _, p := range resetPkgs {
		if p.name == name {
			p.fns[phase] = append(p.fns[phase], f)
			return
		}
	}
	p := &pkgReset{name: name}
	p.fns[phase] = []func(){f}
	resetPkgs = append(resetPkgs, p)
}

// Reset does so for all packages, in the order in which they are initialised.
func Reset() {
	for _, p := range resetPkgs {
		for _, fns := range p.fns {
			for _, f := range fns {
				f()
			}
		}
	}
}
