package runtime

import (
	"internal/runtime/math"
	"unsafe"
)

// State of the deterministic simulator. There is one P, no sysmon and no asynchronous
// preemption, so plain variables suffice.
var dst struct {
	active     bool
	sched      uint64 // generator of scheduling decisions
	rand       uint64 // generator behind rand: map order, math/rand
	selectRand uint64 // apart from it, so that what is initialised once per process does not shift them
	timerRand  uint64
	policy     uint32
	param      uint32
	limit      uint64 // after this many decisions the schedule is first-in first-out
	decisions  uint64 // choices among more than one runnable goroutine
	switches   uint64
	hash       uint64
	nextID     uint32
	wallOffset int64
	steps      uint64
	budget     uint64
	yieldMask  uint32
	exceeded   bool
	pauseMask  uint32 // a site in pauseMask+1 pauses the goroutine that comes by first; 0 none
	pauseSeed  uint64
	paused     [1 << 13]bool
	dead       [256]bool // simulated processes that have ended
}

//go:nosplit
func dstMix(s *uint64) uint64 {
	*s += 0xa0761d6478bd642f
	hi, lo := math.Mul64(*s, *s^0xe7037ed1a0b428db)
	return hi ^ lo
}

//go:linkname dst_Start archive.Start
func dst_Start(schedSeed, randSeed uint64, policy, param uint32, limit uint64) {
	dst.sched = schedSeed
	dst.rand = randSeed
	dst.selectRand = randSeed * 3
	dst.timerRand = randSeed * 5
	dst.policy = policy
	dst.param = param
	dst.limit = limit
	dst.decisions = 0
	dst.switches = 0
	dst.hash = 14695981039346656037
	dst.nextID = 1
	dst.wallOffset = 0
	dst.steps = 0
	dst.exceeded = false
	dst.pauseMask = 0
	dst.dead = [256]bool{}
	gp := getg()
	gp.dstID = 1
	gp.dstPrio = 0
	dst.active = true
}

//go:linkname dst_Stop archive.Stop
func dst_Stop() {
	dst.active = false
	dst.budget = 0
	dst.yieldMask = 0
	dst.wallOffset = 0
}

//go:linkname dst_SchedStats archive.SchedStats
func dst_SchedStats() (decisions, hash, switches uint64) {
	return dst.decisions, dst.hash, dst.switches
}

//go:linkname dst_Proc archive.Proc
//go:nosplit
func dst_Proc() uint32 { return getg().dstProc }

//go:linkname dst_SetProc archive.SetProc
func dst_SetProc(p uint32) { getg().dstProc = p }

//go:linkname dst_quiet archive.quiet
//go:nosplit
func dst_quiet(d int32) { getg().dstQuiet += d }

//go:linkname dst_MarkDead archive.MarkDead
func dst_MarkDead(p uint32) { dst.dead[p&255] = true }

//go:linkname dst_GID archive.GID
func dst_GID() uint32 { return getg().dstID }

// dst_Live counts goroutines of this bubble that belong to the given process and have not ended.
//
//go:linkname dst_Live archive.Live
func dst_Live(proc uint32) int {
	n := 0
	b := getg().bubble
	forEachG(func(gp *g) {
		if gp.bubble == b && b != nil && gp.dstProc == proc && readgstatus(gp)&^_Gscan != _Gdead {
			n++
		}
	})
	return n
}

//go:linkname dst_SetWallOffset archive.SetWallOffset
func dst_SetWallOffset(ns int64) { dst.wallOffset = ns }

//go:linkname dst_Steps archive.Steps
func dst_Steps() uint64 { return dst.steps }

//go:linkname dst_SetTick archive.SetTick
func dst_SetTick(budget uint64, yieldMask uint32) {
	dst.budget = budget
	dst.yieldMask = yieldMask
	dst.exceeded = false
}

//go:linkname dst_budgetExceeded archive.budgetExceeded
func dst_budgetExceeded(steps uint64)

//go:linkname dst_pauseGoroutine archive.pauseGoroutine
func dst_pauseGoroutine(rnd uint64)

//go:linkname dst_SetPause archive.SetPause
func dst_SetPause(mask uint32, seed uint64) {
	dst.pauseMask = mask
	dst.pauseSeed = seed
	dst.paused = [1 << 13]bool{}
}

//go:linkname dst_Tick archive.Tick
func dst_Tick(site uint32) {
	if !dst.active {
		return
	}
	dst.steps++
	if dst.dead[getg().dstProc&255] {
		block()
	}
	if dst.budget != 0 && dst.steps > dst.budget && !dst.exceeded {
		dst.exceeded = true
		dst_budgetExceeded(dst.steps)
	}
	if dst.pauseMask != 0 && !dst.paused[site&(1<<13-1)] {
		h := dst.pauseSeed + uint64(site)*0x9e3779b97f4a7c15
		if h = dstMix(&h); uint32(h>>20)&dst.pauseMask == 0 && getg().dstProc != 0 {
			dst.paused[site&(1<<13-1)] = true
			dst_pauseGoroutine(h)
		}
	}
	if dst.yieldMask != 0 && dst.decisions < dst.limit {
		gp := getg()
		if gp.bubble != nil && uint32(dstMix(&dst.sched))&dst.yieldMask == 0 {
			Gosched()
		}
	}
}

//go:linkname dst_Yield archive.Yield
func dst_Yield() {
	if dst.active && getg().bubble != nil {
		Gosched()
	}
}

//go:linkname dst_BubbleRun archive.BubbleRun
func dst_BubbleRun(f func()) { synctestRun(f) }

//go:linkname dst_BubbleWait archive.BubbleWait
func dst_BubbleWait() { synctestWait() }

// dstNewG is called by newproc1 for every new goroutine.
func dstNewG(newg, callergp *g) {
	newg.dstProc = callergp.dstProc
	newg.dstQuiet = 0
	newg.dstID = 0
	newg.dstPrio = 0
	if dst.active && newg.bubble != nil {
		dst.nextID++
		newg.dstID = dst.nextID
		newg.dstPrio = uint32(dstMix(&dst.sched)) >> 1
	}
}

// dstRunqget picks the next goroutine to run. Goroutines outside a bubble (runtime helpers) go first and
// consume no randomness.
func dstRunqget(pp *p) *g {
	h := pp.runqhead
	t := pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	const ql = uint32(len(pp.runq))
	pick := uint32(0)
	for i := uint32(0); i < n; i++ {
		if pp.runq[(h+i)%ql].ptr().bubble == nil {
			pick = i
			goto found
		}
	}
	if n > 1 {
		dst.decisions++
		if dst.decisions <= dst.limit {
			switch dst.policy {
			case 1: // mostly the newest runnable goroutine (long runs of one goroutine), sometimes another
				r := dstMix(&dst.sched)
				if uint32(r>>32)%(dst.param+1) != 0 {
					pick = n - 1
				} else {
					pick = uint32(r) % n
				}
			case 2: // random priorities with random changes (PCT)
				r := dstMix(&dst.sched)
				best := uint32(0)
				for i := uint32(0); i < n; i++ {
					gp := pp.runq[(h+i)%ql].ptr()
					if gp.dstPrio >= best {
						best = gp.dstPrio
						pick = i
					}
				}
				if uint32(r>>32)%(dst.param+1) == 0 {
					pp.runq[(h+pick)%ql].ptr().dstPrio = uint32(r) >> 8
				}
			case 3: // first in, first out
			default: // uniform
				pick = uint32(dstMix(&dst.sched)>>32) % n
			}
		}
		dst.hash = (dst.hash ^ uint64(pp.runq[(h+pick)%ql].ptr().dstID)) * 1099511628211
	}
found:
	gp := pp.runq[(h+pick)%ql].ptr()
	for i := pick; i > 0; i-- {
		pp.runq[(h+i)%ql] = pp.runq[(h+i-1)%ql]
	}
	pp.runq[h%ql] = 0
	pp.runqhead = h + 1
	if gp.bubble != nil {
		dst.switches++
	}
	return gp
}

//go:nosplit
func dstRand64() uint64 { return dstMix(&dst.rand) }

var _ unsafe.Pointer
