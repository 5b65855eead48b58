package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A srcPatch is one exact textual replacement in a standard library file.
// The replacement must match exactly once; if the toolchain ever differs the
// build fails loudly instead of running an unpatched (nondeterministic) runtime.
type srcPatch struct {
	file, old, new string
}

const detRuntime = `package runtime

import "unsafe"

// Deterministic scheduling for goroutines in a synctest bubble. With GOMAXPROCS=1
// every runnable bubble goroutine is kept in det.q, and a seeded generator picks
// the next one to run. Off (det.on false) the runtime behaves as shipped.

const detQLen = 1 << 15

var det struct {
	on       bool
	vrng     uint64 // values handed out by sysrand
	mseed    uint64 // for rand(), cheaprand() and map iteration
	mstep    uint64
	mctr     uint64
	selrng   uint64 // order of select cases
	semrng   uint64
	timrng   uint64
	srng     uint64 // scheduling decisions
	q        [detQLen]guintptr
	n        int
	mode     int32 // 0 fifo, 1 uniform, 2 priorities with random demotions
	yieldThr uint64 // of 1<<32
	picks    uint64
	choices  uint64
	yields   uint64
	steps    uint64
	maxSteps uint64
	cutoff   uint64 // from this choice on: fifo, no preemption
	hash     uint64
	nextID   uint64
	low      uint64
	deadTag  uint64
	nano     int64
}

//go:nosplit
func detMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func detActive() bool {
	if !det.on {
		return false
	}
	gp := getg()
	if gp.m == nil {
		return false
	}
	if gp == gp.m.g0 || gp == gp.m.gsignal {
		gp = gp.m.curg
	}
	return gp != nil && gp.bubble != nil
}

// detHash is a value that depends on the goroutine and its position only, not on
// how often the runtime asked before (caches of the process would show).
//go:nosplit
func detHash(ctr uint64) uint64 {
	gp := getg()
	if gp == gp.m.g0 || gp == gp.m.gsignal {
		gp = gp.m.curg
	}
	s := det.mseed ^ gp.detID*0x9e3779b97f4a7c15 ^ det.steps*0xc2b2ae3d27d4eb4f ^ ctr*0x165667b19e3779f9
	detMix(&s)
	return detMix(&s)
}

//go:nosplit
func detRand() uint64 {
	if det.mstep != det.steps {
		det.mstep, det.mctr = det.steps, 0
	}
	det.mctr++
	return detHash(det.mctr)
}

// DetStart turns deterministic scheduling on.
func DetStart(seed uint64, mode int, yieldThr uint32, cutoff, maxSteps uint64) {
	s := seed
	det.vrng = detMix(&s)
	det.srng = detMix(&s)
	det.mseed = detMix(&s)
	det.selrng = detMix(&s)
	det.semrng = detMix(&s)
	det.timrng = detMix(&s)
	det.mstep, det.mctr = 0, 0
	det.n = 0
	det.mode = int32(mode)
	det.yieldThr = uint64(yieldThr)
	det.picks, det.choices, det.yields, det.steps = 0, 0, 0, 0
	det.maxSteps = maxSteps
	det.cutoff = cutoff
	det.hash = 14695981039346656037
	det.nextID = 0
	det.low = 1 << 40
	det.nano = 0
	det.deadTag = 0
	det.on = true
}

// DetStop turns it off.
func DetStop() { det.on = false }

// DetStats: picks made, picks with an actual choice, preemptions, steps, hash of all choices.
func DetStats() (picks, choices, yields, steps, hash uint64) {
	return det.picks, det.choices, det.yields, det.steps, det.hash
}

// DetYield is called between the statements of the code under test.
func DetYield() {
	if !det.on {
		return
	}
	gp := getg()
	if gp.bubble == nil {
		return
	}
	if gp.detTag != 0 && gp.detTag <= det.deadTag {
		// the process this goroutine belonged to has crashed
		gopark(nil, nil, waitReasonSelectNoCases, traceBlockForever, 1)
	}
	det.steps++
	if det.maxSteps != 0 && det.steps > det.maxSteps {
		det.on = false
		fatal("VERIF-STEP-BUDGET exceeded: code does not terminate")
	}
	if det.yieldThr == 0 || det.choices >= det.cutoff {
		return
	}
	if detMix(&det.srng)>>32 >= det.yieldThr {
		return
	}
	det.yields++
	if det.mode == 2 {
		det.low--
		gp.detPrio = det.low
	}
	Gosched()
}

// DetGID is a goroutine number that is the same in every execution of a seed.
func DetGID() uint64 { return getg().detID }

// DetSetTag tags the calling goroutine and all it starts from now on.
func DetSetTag(t uint64) { getg().detTag = t }

// DetTag is the tag of the calling goroutine.
func DetTag() uint64 { return getg().detTag }

// DetCrash stops all goroutines with a tag up to t at their next step.
func DetCrash(t uint64) { det.deadTag = t }

// DetKeepGoing marks the step counter (used by the harness to allow long phases).
func DetResetSteps() { det.steps = 0 }

func detNewG(gp *g) {
	if !det.on || gp.bubble == nil {
		return
	}
	det.nextID++
	gp.detID = det.nextID
	gp.detPrio = 1<<41 + detMix(&det.srng)>>8
}

func detEnqueue(gp *g) bool {
	if !det.on || gp.bubble == nil {
		return false
	}
	if det.n >= detQLen {
		throw("det: run queue overflow")
	}
	det.q[det.n].set(gp)
	det.n++
	return true
}

func detPick() *g {
	if det.n == 0 {
		return nil
	}
	det.picks++
	i := 0
	if det.n > 1 {
		det.choices++
		if det.choices < det.cutoff {
			switch det.mode {
			case 1:
				i = int(detMix(&det.srng) % uint64(det.n))
			case 2:
				best := det.q[0].ptr().detPrio
				for j := 1; j < det.n; j++ {
					if p := det.q[j].ptr().detPrio; p > best {
						best, i = p, j
					}
				}
			}
		}
	}
	gp := det.q[i].ptr()
	if det.n > 1 {
		det.hash = (det.hash ^ gp.detID) * 1099511628211
	}
	copy(det.q[i:det.n-1], det.q[i+1:det.n])
	det.n--
	det.q[det.n] = 0
	return gp
}

//go:linkname detSysrand crypto/internal/sysrand.detSysrand
func detSysrand(b []byte) bool {
	if !detActive() {
		return false
	}
	var x uint64
	for i := range b {
		if i%8 == 0 {
			x = detMix(&det.vrng)
		}
		b[i] = byte(x >> (8 * (i % 8)))
	}
	return true
}

// DetRun runs f in a fresh bubble (a fake clock starting 2000-01-01) and reports
// how it ended: 0 all goroutines done, 1 f returned and others remain blocked,
// 2 f itself can never continue. Blocked goroutines are abandoned.
func DetRun(f func()) (state int) {
	detLeak = 0
	synctestRun(f)
	return detLeak
}

var detLeak int

// DetRaceErrors is the number of data races reported so far.
func DetRaceErrors() int { return detRaceErrors() }

var _ = unsafe.Pointer(nil)
`

const detRaceOn = `//go:build race

package runtime

func detRaceErrors() int { return RaceErrors() }
`
const detRaceOff = `//go:build !race

package runtime

func detRaceErrors() int { return 0 }
`

var rtPatches = []srcPatch{
	{"runtime/runtime2.go", "	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	detID   uint64\n	detPrio uint64\n	detTag  uint64\n"},
	{"runtime/runtime2.go", "	waitReasonSyncCondWait:          true,\n", "	waitReasonSyncCondWait:          true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n"},
	{"runtime/proc.go", "	// Check the global runnable queue once in a while to ensure fairness.\n", "	if det.on {\n		if gp := detPick(); gp != nil {\n			return gp, false, false\n		}\n	}\n	// Check the global runnable queue once in a while to ensure fairness.\n"},
	{"runtime/proc.go", "	assertLockHeld(&sched.lock)\n\n	sched.runq.pushBack(gp)\n", "	assertLockHeld(&sched.lock)\n	if detEnqueue(gp) {\n		return\n	}\n	sched.runq.pushBack(gp)\n"},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if detEnqueue(gp) {\n		return\n	}\n"},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if det.on {\n		return false\n	}\n"},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if det.on {\n		return 0\n	}\n"},
	{"runtime/proc.go", "		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		newg.detTag = callergp.detTag\n		detNewG(newg)\n"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if detActive() {\n		det.nano += 1000\n		return det.nano\n	}\n"},
	{"runtime/rand.go", "	if len(startupRand) >= 16 &&\n", "	if true {\n		seed[0] = 1\n	} else if len(startupRand) >= 16 &&\n"},
	{"runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n", "	if detActive() {\n		return detRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
	{"runtime/rand.go", "func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if detActive() {\n		return uint32(detRand() >> 32)\n	}\n"},
	{"runtime/rand.go", "func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n	if detActive() {\n		return detHash(0)\n	}\n"},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if detActive() {\n			j = uint32(detMix(&det.selrng) % uint64(norder+1))\n		}\n"},
	{"runtime/sema.go", "	s.ticket = cheaprand() | 1\n", "	s.ticket = cheaprand() | 1\n	if detActive() {\n		s.ticket = uint32(detMix(&det.semrng)) | 1\n	}\n"},
	{"runtime/time.go", "		t.rand = cheaprand()\n", "		t.rand = cheaprand()\n		if det.on {\n			t.rand = uint32(detMix(&det.timrng))\n		}\n"},
	{"runtime/time.go", "		gp := getg()\n		gp.racectx = 0\n", "		gp := getg()\n		gp.racectx = 0\n		if bubble != nil { // one timer does not order what follows another\n			racectxend(bubble.timers.raceCtx)\n			bubble.timers.raceCtx = 0\n		}\n"},
	{"runtime/synctest.go", "		panic(synctestDeadlockError{reason: reason, bubble: bubble})\n", "		if det.on {\n			detLeak = 1\n			if !bubble.done {\n				detLeak = 2\n			}\n			return\n		}\n		panic(synctestDeadlockError{reason: reason, bubble: bubble})\n"},
	{"crypto/internal/randutil/randutil.go", "	if rand.Uint64()&1 == 1 {\n", "	if true || rand.Uint64()&1 == 1 {\n"},
	{"crypto/internal/sysrand/rand.go", "func Read(b []byte) {\n", "func detSysrand(b []byte) bool\n\nfunc Read(b []byte) {\n	if detSysrand(b) {\n		return\n	}\n"},
}

// patchRuntime writes patched copies of standard library files into dir and
// adds them to the overlay map.
func patchRuntime(goroot, dir string, overlay map[string]string) error {
	byFile := map[string]string{}
	for _, p := range rtPatches {
		src, ok := byFile[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return err
			}
			src = string(b)
		}
		if n := strings.Count(src, p.old); n != 1 {
			return fmt.Errorf("runtime patch for %s: %d matches of %q", p.file, n, p.old)
		}
		byFile[p.file] = strings.Replace(src, p.old, p.new, 1)
	}
	byFile["runtime/zz_det.go"] = detRuntime
	byFile["runtime/zz_det_race.go"] = detRaceOn
	byFile["runtime/zz_det_norace.go"] = detRaceOff
	byFile["crypto/internal/sysrand/zz_det.s"] = "// allows a body-less function\n"
	for f, src := range byFile {
		out := filepath.Join(dir, "rt", strings.ReplaceAll(f, "/", "_"))
		if err := writeIfChanged(out, []byte(src)); err != nil {
			return err
		}
		overlay[filepath.Join(goroot, "src", f)] = out
	}
	return nil
}
