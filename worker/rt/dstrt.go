// Package dstrt is the bridge between the patched runtime, the instrumented
// sources of webrpc and the simulator. It exists only in the overlay of the
// simulation build; nothing of it is part of /repo or of a normal build.
package dstrt

import (
	"internal/race"
	_ "unsafe"
)

// Implemented in runtime (zz_dst.go).
func Start(schedSeed, randSeed uint64, policy, param uint32, limit uint64)
func Stop()
func SchedStats() (decisions, hash, switches uint64)
func Proc() uint32
func SetProc(p uint32)
func Live(proc uint32) int
func MarkDead(proc uint32)
func GID() uint32
func SetWallOffset(ns int64)
func Tick(site uint32)
func SetTick(budget uint64, yieldMask uint32)
func SetPause(mask uint32, seed uint64)
func Steps() uint64
func BubbleRun(f func())
func BubbleWait()
func Yield()
func quiet(d int32)

// Quiet takes the calling goroutine out of sight of the race detector (and back): what the simulator does
// on behalf of a goroutine is neither an access nor a synchronisation of the code under test.
func Quiet(on bool) {
	if !race.Enabled {
		return
	}
	if on {
		race.Disable()
		quiet(1)
	} else {
		quiet(-1)
		race.Enable()
	}
}

// Hooks; nil outside the simulator. They are consulted only by goroutines that belong to a
// simulated process (Proc() != 0).
var (
	SyscallHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr, handled bool)
	ExitHook    func(code int)
	ArgsHook    func() []string
	ExecHook    func(path string, args []string, deadline int64) (stdout, stderr []byte, exit int, err error)
	ListenHook  func(network, address string) (any, error)
	DialHook    func(network, address string) (any, error)
	BudgetHook  func(steps uint64)
	PauseHook   func(rnd uint64)
)

// LinkHook tells the value that a build gives to a package level variable with -ldflags -X.
var LinkHook func(dir, name string) (string, bool)

func LinkVar(dir, name string) (string, bool) {
	if LinkHook != nil && Proc() != 0 {
		return LinkHook(dir, name)
	}
	return "", false
}

// Args stands for os.Args in the sources of webrpc.
func Args(real []string) []string {
	if ArgsHook != nil && Proc() != 0 {
		return ArgsHook()
	}
	return real
}

//go:linkname budgetExceeded
func budgetExceeded(steps uint64) {
	if BudgetHook != nil {
		BudgetHook(steps)
	}
}

//go:linkname pauseGoroutine
func pauseGoroutine(rnd uint64) {
	if PauseHook != nil {
		PauseHook(rnd)
	}
}

type resetEntry struct {
	Name string
	Fn   func()
}

var (
	resets [8][]resetEntry
	mains  [8]map[string]func()
)

// RegisterReset is called by the init function of every copied package, hence in dependency order.
func RegisterReset(slot int, name string, fn func()) {
	resets[slot] = append(resets[slot], resetEntry{name, fn})
}

// Reset puts the package level variables of a slot back to their initial values and runs the init functions.
func Reset(slot int) {
	for _, r := range resets[slot] {
		r.Fn()
	}
}

// RegisterMain announces the main function of a copied command.
func RegisterMain(slot int, name string, fn func()) {
	if mains[slot] == nil {
		mains[slot] = map[string]func(){}
	}
	mains[slot][name] = fn
}

func Main(slot int, name string) func() { return mains[slot][name] }
