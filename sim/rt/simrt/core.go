// Package simrt is the deterministic scheduler under the instrumented code.
//
// Tasks are real goroutines of which exactly one runs at any time; every
// decision who runs next comes from one seeded generator (or from an explicit,
// recorded schedule). The hand-over between goroutines is hidden from the race
// detector, so that in a race build only the synchronisation of the code under
// test orders its memory accesses.
//
// Scheduler state is touched only by the running task (or by the host while no
// task runs), in functions marked norace that avoid maps, append and copy.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
	"unsafe"
)

// Keep is referenced by every instrumented file.
var Keep int

const (
	stReady = iota
	stRunning
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	id      int
	parent  *Task
	childNo int
	nchild  int
	root    bool
	site    int
	wake    chan struct{}
	state   int
	fn      func()

	ls     int64 // local steps
	nblock int   // blocking and exit events so far
	prio   uint64
	starve bool
	stall  bool
	readyN int64 // order in which it became ready

	wobj    unsafe.Pointer // what it waits for (sync objects)
	wcases  []*Case        // what it waits for (channels)
	claimed int            // case completed by a counterpart, or -1
	wakeAt  int64          // timer, ns; -1 none
	why     string

	exp  []SchedEntry // explicit entries of this task
	expP int
}

// Pick modes.
const (
	PickLow = iota
	PickHigh
	PickRandom
	PickFIFO
	PickPrio
	numPick
)

// Strategy is one way of drawing a schedule.
type Strategy struct {
	Pick      int   `json:"pick"`
	Mean      int   `json:"mean"`  // mean number of steps between preemptions; 0: only when blocked
	SyncP     int   `json:"syncp"` // percent chance of preemption at a synchronisation point
	StarveP   int   `json:"starvep"`
	Changes   int   `json:"changes"` // PCT priority change points
	Horizon   int   `json:"horizon"`
	HotSites  []int `json:"hot,omitempty"` // stall the first task that gets there
	StallSkip int   `json:"stallskip,omitempty"`
}

// SchedEntry is one recorded decision: at local step At of task Task (kind "P")
// or at its At-th blocking event (kind "B") the next task is To.
type SchedEntry struct {
	Task string `json:"t"`
	Kind string `json:"k"`
	At   int64  `json:"at"`
	To   string `json:"to"`
}

type rawEntry struct {
	task, to *Task
	kind     byte
	at       int64
}

// Config of one run.
type Config struct {
	Seed      uint64
	Strat     Strategy
	Explicit  bool
	Sched     []SchedEntry
	NCPU      int
	StepLimit int64
	CapLimit  int
	StepNS    int64
	ClockJump []ClockJump
}

// ClockJump moves the clock by By ns when At steps have been made. Without
// Pause it is the wall clock that is set; with Pause the time really passes
// (the process or the machine stood still) and timers run out.
type ClockJump struct {
	At    int64 `json:"at"`
	By    int64 `json:"by"`
	Pause bool  `json:"pause,omitempty"`
}

// Result of one run.
type Result struct {
	Steps      int64
	Switches   int64
	Tasks      int
	Preempts   int64
	Blocks     int64
	Deadlock   bool     // a root task can not go on
	Leaked     []string // tasks blocked for ever after all roots ended
	StepLimit  bool
	Panic      string
	PanicStack string
	Hash       uint64 // of the interleaving
	Sched      []SchedEntry
	SimNS      int64
	MaxLive    int
	ClockJumps int
	Pauses     int // those of the clock jumps in which time passed
	Stalls     int
	HotHits    int
}

var (
	cur     *Task // running task; nil outside a run
	left    int64 = 1 << 60
	granted int64 = 1 << 60

	cfg       Config
	res       Result
	rng       uint64 // draws of the scheduler
	rng2      uint64 // draws inside the run (select order, map order): same in a replay
	steps     int64
	now       int64
	jumpSum   int64
	live      []*Task // not done, creation order
	nlive     int
	ntasks    int
	nroots    int
	readySeq  int64
	progress  int64
	lastKick  int64
	raw       []rawEntry
	nraw      int
	aborting  bool
	hostWake  = make(chan struct{}, 1)
	rootSync  int64
	hash      uint64
	hot       [8]int
	nhot      int
	hotSkip   int
	pctAt     [8]int64
	npct      int
	numCPU    = runtime.NumCPU()
	capLimit  int
	jumpIdx   int
	lastFair  int64
	fairUntil int64
)

const fairCap = 150000

// SiteHits counts visits per site in runs with hot sites, if it has been
// allocated.
var SiteHits []uint32

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func rndn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(rnd() % uint64(n))
}

// Rand is for draws that are not scheduling decisions; a replayed run makes
// the same ones.
//
//go:norace
func Rand(n int) int {
	if n <= 1 {
		return 0
	}
	rng2 += 0x9e3779b97f4a7c15
	z := rng2
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) % uint64(n))
}

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return cur != nil }

//go:norace
func Aborting() bool { return aborting }

// Run executes the root functions as simulated tasks until all tasks ended,
// nothing can go on, or the step limit is reached.
func Run(c Config, roots ...func()) Result {
	start(c, roots)
	<-hostWake
	RaceAcquire(unsafe.Pointer(&rootSync))
	cleanup()
	return finishResult()
}

//go:norace
func start(c Config, roots []func()) {
	cfg = c
	res = Result{}
	rng = c.Seed
	rng2 = c.Seed ^ 0x5bd1e995deadbeef
	ntimed = 0
	timers = nil
	steps, now, jumpSum, jumpIdx = 0, 0, 0, 0
	nlive, ntasks, nroots, readySeq, progress, nraw = 0, 0, 0, 0, 0, 0
	lastKick = -1
	lastFair, fairUntil = 0, 0
	aborting = false
	hash = 14695981039346656037
	if cfg.NCPU > 0 {
		numCPU = cfg.NCPU
	}
	capLimit = cfg.CapLimit
	if cfg.StepLimit == 0 {
		cfg.StepLimit = 50000000
	}
	if cfg.StepNS == 0 {
		cfg.StepNS = 100
	}
	nhot = 0
	for _, s := range cfg.Strat.HotSites {
		if nhot < len(hot) {
			hot[nhot] = s
			nhot++
		}
	}
	hotSkip = cfg.Strat.StallSkip
	npct = 0
	for i := 0; i < cfg.Strat.Changes && i < len(pctAt); i++ {
		pctAt[npct] = int64(rndn(cfg.Strat.Horizon + 1))
		npct++
	}
	for _, f := range roots {
		t := newTask(nil, 0, f)
		t.root = true
		t.childNo = nroots
		bindExplicit(t)
		nroots++
	}
	var first *Task
	if cfg.Explicit {
		first = live[0]
	} else {
		first = pick(nil)
	}
	if first != live[0] {
		record(nil, 'B', 0, first)
	} else if cfg.Explicit {
		if e := hostEntry(); e != nil {
			first = e
		}
	}
	resume(first)
	raceDisable()
	first.wake <- struct{}{}
	raceEnable()
}

//go:norace
func hostEntry() *Task {
	for i := range cfg.Sched {
		e := &cfg.Sched[i]
		if e.Task == "" {
			return findPath(e.To)
		}
	}
	return nil
}

//go:norace
func newTask(parent *Task, site int, f func()) *Task {
	t := &Task{id: ntasks, parent: parent, site: site, fn: f, wake: make(chan struct{}, 1), claimed: -1, wakeAt: -1}
	ntasks++
	if parent != nil {
		t.childNo = parent.nchild
		parent.nchild++
	}
	t.prio = rnd()
	if cfg.Strat.StarveP > 0 && rndn(100) < cfg.Strat.StarveP {
		t.starve = true
	}
	if nlive == len(live) {
		n := len(live)*2 + 16
		nl := make([]*Task, n)
		for i := 0; i < nlive; i++ {
			nl[i] = live[i]
		}
		live = nl
	}
	live[nlive] = t
	nlive++
	if nlive > res.MaxLive {
		res.MaxLive = nlive
	}
	makeReady(t)
	go taskMain(t)
	return t
}

//go:norace
func makeReady(t *Task) {
	t.state = stReady
	readySeq++
	t.readyN = readySeq
}

func taskMain(t *Task) {
	waitTurn(t)
	normal := false
	defer func() {
		if !normal && !isAborting() {
			if r := recover(); r != nil {
				notePanic(fmt.Sprint(r), string(debug.Stack()))
				RaceRelease(unsafe.Pointer(&rootSync))
				panicExit(t)
				return
			}
		} else if !normal {
			recover()
		}
		RaceRelease(unsafe.Pointer(&rootSync))
		taskExit(t)
	}()
	if !isAborting() {
		t.fn()
	}
	normal = true
}

//go:norace
func isAborting() bool { return aborting }

//go:norace
func waitTurn(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

// NoteExit records that the code under test tried to end the process.
func NoteExit(msg string) { notePanic(msg, string(debug.Stack())) }

//go:norace
func notePanic(msg, stack string) {
	if res.Panic == "" {
		res.Panic = msg
		res.PanicStack = stack
	}
}

//go:norace
func removeLive(t *Task) {
	j := 0
	for i := 0; i < nlive; i++ {
		if live[i] != t {
			live[j] = live[i]
			j++
		}
	}
	for i := j; i < nlive; i++ {
		live[i] = nil
	}
	nlive = j
}

//go:norace
func taskExit(t *Task) {
	if aborting {
		t.state = stDone
		raceDisable()
		hostWake <- struct{}{}
		raceEnable()
		return
	}
	account(t)
	t.state = stDone
	t.fn = nil
	removeLive(t)
	progress++
	next := chooseAfterBlock(t)
	if next == nil {
		endRun()
		return
	}
	resume(next)
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

//go:norace
func panicExit(t *Task) {
	account(t)
	t.state = stDone
	removeLive(t)
	endRun()
}

// endRun hands control back to the host.
//
//go:norace
func endRun() {
	cur = nil
	left, granted = 1<<60, 1<<60
	raceDisable()
	hostWake <- struct{}{}
	raceEnable()
}

// account books the steps made since the last grant.
//
//go:norace
func account(t *Task) {
	used := granted - left
	t.ls += used
	steps += used
	granted, left = 0, 0
	if jumpIdx < len(cfg.ClockJump) && steps >= cfg.ClockJump[jumpIdx].At {
		if j := cfg.ClockJump[jumpIdx]; j.Pause {
			now += j.By
			res.Pauses++
		} else {
			jumpSum += j.By
		}
		jumpIdx++
		res.ClockJumps++
	}
	if ntimed > 0 {
		fireDue()
	}
}

var ntimed int // sleeping tasks and registered timers

//go:norace
func fireDue() {
	n := now + steps*cfg.StepNS
	for i := 0; i < nlive; i++ {
		c := live[i]
		if c.state == stBlocked && c.wakeAt >= 0 && c.wakeAt <= n {
			c.wakeAt = -1
			ntimed--
			makeReady(c)
		}
	}
	for again := true; again; {
		again = false
		for x := timers; x != nil; x = x.next {
			if x.at <= n {
				fireTimer(x)
				again = true
				break
			}
		}
	}
}

// resume makes t the running task and grants it steps.
//
//go:norace
func resume(t *Task) {
	if cur != t {
		res.Switches++
		h := hash
		h ^= uint64(t.id) + 1
		h *= 1099511628211
		h ^= uint64(t.ls)
		h *= 1099511628211
		hash = h
	}
	t.state = stRunning
	cur = t
	grant(t)
}

//go:norace
func grant(t *Task) {
	var g int64
	if cfg.Explicit {
		g = fairCap
		for t.expP < len(t.exp) && (t.exp[t.expP].Kind != "P" || t.exp[t.expP].At <= t.ls) {
			t.expP++
		}
		if t.expP < len(t.exp) {
			if d := t.exp[t.expP].At - t.ls - 1; d < g {
				g = d
			}
		}
	} else if nhot > 0 {
		g = 0
	} else if cfg.Strat.Mean > 0 {
		g = int64(rndn(cfg.Strat.Mean * 2))
	} else {
		g = fairCap
	}
	if !cfg.Explicit && npct > 0 {
		for i := 0; i < npct; i++ {
			if d := pctAt[i] - steps; d >= 0 && d < g {
				g = d
			}
		}
	}
	if rem := cfg.StepLimit - steps; g > rem {
		g = rem
	}
	if g < 0 {
		g = 0
	}
	granted, left = g, g
}

// Y is the yield point before every statement of the code under test.
//
//go:norace
func Y(site int) {
	left--
	if left < 0 {
		yslow(site, false)
	}
}

// V yields between computing a value and storing it.
//
//go:norace
func V[T any](site int, v T) T {
	Y(site)
	return v
}

// SyncPoint is a yield point at a synchronisation operation.
//
//go:norace
func SyncPoint() {
	if cur == nil {
		return
	}
	left--
	if left < 0 {
		yslow(0, true)
		return
	}
	if !cfg.Explicit && cfg.Strat.SyncP > 0 && rndn(100) < cfg.Strat.SyncP {
		yslow(0, true)
	}
}

//go:norace
func yslow(site int, sync bool) {
	t := cur
	if t == nil {
		left, granted = 1<<60, 1<<60
		return
	}
	if aborting {
		left, granted = 1<<60, 1<<60
		return
	}
	spent := granted - left
	account(t)
	if steps > cfg.StepLimit {
		res.StepLimit = true
		t.state = stReady
		endRun()
		waitTurn(t)
		runtime.Goexit()
	}
	var next *Task
	if cfg.Explicit {
		if t.expP < len(t.exp) && t.exp[t.expP].Kind == "P" && t.exp[t.expP].At == t.ls {
			n := findPath(t.exp[t.expP].To)
			t.expP++
			if n != nil && n.state == stReady {
				next = n
			}
		} else if spent > fairCap {
			next = nextReadyAfter(t)
		}
	} else {
		pre := false
		if nhot > 0 {
			if site > 0 && site < len(SiteHits) {
				SiteHits[site]++
			}
			for i := 0; i < nhot; i++ {
				if hot[i] == site && site != 0 {
					res.HotHits++
					if hotSkip > 0 {
						hotSkip--
						break
					}
					// stall this task until nothing else can run
					t.stall = true
					res.Stalls++
					hot[i] = -1
					pre = true
				}
			}
			if sync && cfg.Strat.SyncP > 0 && rndn(100) < cfg.Strat.SyncP {
				pre = true
			}
			if cfg.Strat.Mean > 0 && rndn(cfg.Strat.Mean) == 0 {
				pre = true
			}
		} else {
			pre = cfg.Strat.Mean > 0 || sync || spent > fairCap
		}
		for i := 0; i < npct; i++ {
			if pctAt[i] <= steps && pctAt[i] >= 0 {
				pctAt[i] = -1
				t.prio = uint64(npct - i)
				pre = true
			}
		}
		if spent > fairCap && cfg.Strat.Pick == PickPrio {
			t.prio = 0
		}
		if steps < fairUntil {
			pre = false
		} else if steps-lastFair > fairCap {
			// no task waits for ever: the longest waiting one gets a turn
			lastFair = steps
			if next = oldestReady(); next != nil {
				next.starve, next.stall = false, false
				fairUntil = steps + fairCap/8
			}
			pre = false
		}
		if pre {
			if spent > fairCap {
				next = nextReadyAfter(t)
			} else {
				next = pick(t)
			}
		}
	}
	if next == nil || next == t {
		grant(t)
		return
	}
	res.Preempts++
	record(t, 'P', t.ls, next)
	makeReady(t)
	if cfg.Strat.Pick == PickFIFO {
		// stays behind the others
	}
	handoff(t, next)
}

//go:norace
func oldestReady() *Task {
	var best *Task
	for i := 0; i < nlive; i++ {
		c := live[i]
		if c.state == stReady && (best == nil || c.readyN < best.readyN) {
			best = c
		}
	}
	return best
}

//go:norace
func nextReadyAfter(t *Task) *Task {
	k := 0
	for i := 0; i < nlive; i++ {
		if live[i] == t {
			k = i
		}
	}
	for j := 1; j <= nlive; j++ {
		c := live[(k+j)%nlive]
		if c.state == stReady {
			return c
		}
	}
	return nil
}

//go:norace
func handoff(me, to *Task) {
	resume(to)
	raceDisable()
	to.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if aborting {
		left, granted = 1<<60, 1<<60
		runtime.Goexit()
	}
}

// pick chooses among the ready tasks and, if t is not nil, t itself.
//
//go:norace
func pick(t *Task) *Task {
	// starved or stalled tasks run only if nothing else can
	for pass := 0; pass < 2; pass++ {
		n := 0
		var best *Task
		for i := 0; i < nlive; i++ {
			c := live[i]
			if c.state != stReady && c != t {
				continue
			}
			if pass == 0 && (c.starve || c.stall) {
				continue
			}
			n++
			switch cfg.Strat.Pick {
			case PickLow:
				if best == nil {
					best = c
				}
			case PickHigh:
				best = c
			case PickRandom:
				if rndn(n) == 0 {
					best = c
				}
			case PickFIFO:
				if c == t {
					if best == nil {
						best = c
					}
				} else if best == nil || best == t || c.readyN < best.readyN {
					best = c
				}
			case PickPrio:
				if best == nil || c.prio > best.prio {
					best = c
				}
			}
		}
		if best != nil {
			if pass == 1 {
				best.stall = false
			}
			return best
		}
	}
	return nil
}

// chooseAfterBlock returns the next task after t blocked or ended; nil when
// the run is over.
//
//go:norace
func chooseAfterBlock(t *Task) *Task {
	res.Blocks++
	ord := int64(t.nblock)
	t.nblock++
	for {
		var def *Task
		for i := 0; i < nlive; i++ {
			if live[i].state == stReady {
				def = live[i]
				break
			}
		}
		if def != nil {
			var c *Task
			if cfg.Explicit {
				c = def
				for i := range t.exp {
					if t.exp[i].Kind == "B" && t.exp[i].At == ord {
						if n := findPath(t.exp[i].To); n != nil && n.state == stReady {
							c = n
						}
						break
					}
				}
			} else {
				c = pick(nil)
			}
			if c != def {
				record(t, 'B', ord, c)
			}
			return c
		}
		if nlive == 0 {
			return nil
		}
		// nobody is ready: channels closed behind the simulator's back (for
		// example by a context) are found by letting everyone look once more
		if lastKick != progress {
			lastKick = progress
			for i := 0; i < nlive; i++ {
				if live[i].state == stBlocked && live[i].wcases != nil {
					makeReady(live[i])
				}
			}
			continue
		}
		// advance the clock to the next timer
		var tm *Task
		var tmr *timer
		at := int64(-1)
		for i := 0; i < nlive; i++ {
			c := live[i]
			if c.state == stBlocked && c.wakeAt >= 0 && (at < 0 || c.wakeAt < at) {
				at, tm = c.wakeAt, c
			}
		}
		for x := timers; x != nil; x = x.next {
			if at < 0 || x.at < at {
				at, tm, tmr = x.at, nil, x
			}
		}
		if at >= 0 {
			if d := at - Now(); d > 0 {
				now += d
			}
			progress++
			if tm != nil {
				tm.wakeAt = -1
				ntimed--
				makeReady(tm)
			} else {
				fireTimer(tmr)
			}
			continue
		}
		// deadlock
		for i := 0; i < nlive; i++ {
			if live[i].root {
				res.Deadlock = true
			}
		}
		return nil
	}
}

// blockOn parks the running task until something makes it ready again.
//
//go:norace
func blockOn(why string) {
	t := cur
	if aborting {
		runtime.Goexit()
	}
	account(t)
	t.state = stBlocked
	t.why = why
	next := chooseAfterBlock(t)
	if next == t {
		resume(t)
		return
	}
	if next == nil {
		endRun()
		waitTurn(t)
		left, granted = 1<<60, 1<<60
		runtime.Goexit()
	}
	handoff(t, next)
}

// Block waits until Notify(obj).
//
//go:norace
func Block(obj unsafe.Pointer, why string) {
	t := cur
	t.wobj = obj
	blockOn(why)
	t.wobj = nil
}

// Notify makes every task that waits for obj ready.
//
//go:norace
func Notify(obj unsafe.Pointer) {
	progress++
	for i := 0; i < nlive; i++ {
		c := live[i]
		if c.state == stBlocked && c.wobj == obj && obj != nil {
			makeReady(c)
		}
	}
}

// Progress notes that a blocking operation went through.
//
//go:norace
func Progress() { progress++ }

// Sleep parks the task for d simulated nanoseconds.
//
//go:norace
func Sleep(d time.Duration) {
	t := cur
	if t == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		SyncPoint()
		return
	}
	t.wakeAt = Now() + int64(d)
	ntimed++
	for t.wakeAt >= 0 && !aborting {
		blockOn("sleep")
	}
}

// Now is the simulated clock, ns since the start of the run.
//
//go:norace
func Now() int64 {
	s := steps
	if cur != nil {
		s += granted - left
	}
	return now + s*cfg.StepNS
}

// WallNow adds the injected clock jumps.
//
//go:norace
func WallNow() int64 { return Now() + jumpSum }

type timer struct {
	at   int64
	fire func()
	next *timer
	hb   int32 // what was done before it was set is seen by what it does
}

var timers *timer

// AddTimer registers fire to be called when d has passed; it runs on the
// scheduler and must not block.
//
//go:norace
func AddTimer(d time.Duration, fire func()) (cancel func() bool) {
	t := &timer{at: Now() + int64(d), fire: fire}
	if d < 0 {
		t.at = Now()
	}
	t.next = timers
	timers = t
	ntimed++
	atomic.StoreInt32(&t.hb, 1)
	return func() bool { return dropTimer(t) }
}

//go:norace
func dropTimer(t *timer) bool {
	for p := &timers; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			ntimed--
			return true
		}
	}
	return false
}

//go:norace
func fireTimer(t *timer) {
	dropTimer(t)
	atomic.LoadInt32(&t.hb)
	t.fire()
}

//go:norace
func record(t *Task, kind byte, at int64, to *Task) {
	if nraw == len(raw) {
		n := make([]rawEntry, len(raw)*2+64)
		for i := 0; i < nraw; i++ {
			n[i] = raw[i]
		}
		raw = n
	}
	raw[nraw] = rawEntry{t, to, kind, at}
	nraw++
}

// Go starts a simulated goroutine.
//
//go:norace
func Go(site int, f func()) {
	p := cur
	if p == nil {
		go f()
		return
	}
	if aborting {
		return
	}
	t := newTask(p, site, f)
	bindExplicit(t)
	SyncPoint()
}

//go:norace
func bindExplicit(t *Task) {
	if !cfg.Explicit {
		return
	}
	n := 0
	for i := range cfg.Sched {
		if isPath(t, cfg.Sched[i].Task) {
			n++
		}
	}
	if n == 0 {
		return
	}
	t.exp = make([]SchedEntry, n)
	n = 0
	for i := range cfg.Sched {
		if isPath(t, cfg.Sched[i].Task) {
			t.exp[n] = cfg.Sched[i]
			n++
		}
	}
}

// isPath compares a task with a path such as "0.3.1" without allocating.
//
//go:norace
func isPath(t *Task, p string) bool {
	e := len(p)
	for t != nil {
		// last number of p[:e]
		b := e
		for b > 0 && p[b-1] != '.' {
			b--
		}
		if b == e {
			return false
		}
		v := 0
		for i := b; i < e; i++ {
			v = v*10 + int(p[i]-'0')
		}
		if v != t.childNo {
			return false
		}
		t = t.parent
		if b == 0 {
			return t == nil
		}
		e = b - 1
	}
	return false
}

//go:norace
func findPath(p string) *Task {
	for i := 0; i < nlive; i++ {
		if isPath(live[i], p) {
			return live[i]
		}
	}
	return nil
}

func pathOf(t *Task) string {
	if t == nil {
		return ""
	}
	if t.parent == nil {
		return fmt.Sprint(t.childNo)
	}
	return pathOf(t.parent) + "." + fmt.Sprint(t.childNo)
}

// cleanup ends the goroutines of tasks that did not finish.
//
//go:norace
func cleanup() {
	cur = nil
	timers = nil
	if nlive > 0 {
		// a panicking or limit-hitting run leaves tasks behind on purpose
		if res.Panic == "" && !res.StepLimit {
			for i := 0; i < nlive; i++ {
				t := live[i]
				if t.state == stBlocked && !res.Deadlock {
					res.Leaked = addStr(res.Leaked, "task "+pathOf(t)+" (started at site "+fmt.Sprint(t.site)+") waits: "+t.why)
				} else if res.Deadlock && t.state == stBlocked && len(res.Leaked) < 8 {
					res.Leaked = addStr(res.Leaked, "task "+pathOf(t)+" waits: "+t.why)
				}
			}
		}
		aborting = true
		for i := 0; i < nlive; i++ {
			t := live[i]
			left, granted = 1<<60, 1<<60
			cur = t
			raceDisable()
			t.wake <- struct{}{}
			<-hostWake
			raceEnable()
			RaceAcquire(unsafe.Pointer(&rootSync))
		}
	}
	for i := 0; i < len(live); i++ {
		live[i] = nil
	}
	cur = nil
	nlive = 0
	aborting = false
	left, granted = 1<<60, 1<<60
}

func addStr(s []string, x string) []string {
	if len(s) > 40 {
		return s
	}
	return append(s, x)
}

//go:norace
func finishResult() Result {
	res.Steps = steps
	res.Tasks = ntasks
	res.Hash = hash
	res.SimNS = now + steps*cfg.StepNS
	res.Sched = make([]SchedEntry, nraw)
	for i := 0; i < nraw; i++ {
		e := raw[i]
		k := "P"
		if e.kind == 'B' {
			k = "B"
		}
		res.Sched[i] = SchedEntry{pathOf(e.task), k, e.at, pathOf(e.to)}
		raw[i] = rawEntry{}
	}
	return res
}

// NumCPU and friends replace the runtime functions.
//
//go:norace
func NumCPU() int { return numCPU }

// SetNumCPU sets the processor count package initialisers will see.
//
//go:norace
func SetNumCPU(n int) { numCPU = n }

//go:norace
func GOMAXPROCS(n int) int {
	o := numCPU
	if n > 0 {
		numCPU = n
	}
	return o
}

//go:norace
func NumGoroutine() int { return nlive + 1 }

//go:norace
func Gosched() {
	t := cur
	if t == nil {
		runtime.Gosched()
		return
	}
	left--
	if cfg.Explicit {
		if left < 0 {
			yslow(0, true)
		}
		return
	}
	account(t)
	n := nextReadyAfter(t)
	if n == nil || n == t {
		grant(t)
		return
	}
	record(t, 'P', t.ls, n)
	makeReady(t)
	handoff(t, n)
}

// Goexit ends the running task.
func Goexit() { runtime.Goexit() }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Cap bounds capacity hints that only exist to avoid reallocation.
//
//go:norace
func Cap[T integer](n T) T {
	if capLimit > 0 && uint64(n) > uint64(capLimit) && n > 0 {
		return T(capLimit)
	}
	return n
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Spawn starts a task from the scheduler (timer functions).
//
//go:norace
func Spawn(f func()) {
	var p *Task
	for i := 0; i < nlive; i++ {
		p = live[i]
		break
	}
	t := newTask(p, 0, f)
	bindExplicit(t)
}
