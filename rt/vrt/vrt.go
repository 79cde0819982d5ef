// Package vrt is the virtual runtime onto which the code under test is
// redirected: a cooperative scheduler whose every decision is a recorded
// choice, a virtual clock, and the bookkeeping (per-thread and per-object
// history hashes) that identifies equivalent states.
//
// Exactly one goroutine of an execution runs at a time.  Functions of this
// package are marked norace so that, in a -race build, only the accesses of the
// code under test are judged, with the happens-before edges that the virtual
// primitives declare explicitly (Acquire/Release); the scheduler's own
// hand-offs are hidden (raceOff/raceOn).
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

// Waiter is what a goroutine waits for at a scheduling point.
type Waiter interface {
	Ready(g *G) bool
	What() string
}

// G is a virtual goroutine.
type G struct {
	points   uint64 // scheduling points passed
	ID       int
	idx      int // place in Exec.gs
	Name     string
	Sys      bool // belongs to the harness (driver, writers), not to the code under test
	lateFrom int64
	lib      int // number among the goroutines of the code under test, else -1
	h        uint64
	wake     chan struct{}
	w        Waiter
	done     bool
	nsp      int // children spawned

	// result of a rendezvous completed by the partner
	rvDone bool
	rvIdx  int
	rvVal  any
	rvOK   bool
	yield  bool
	Label  string // what the harness is doing, for messages
}

// Choice is one recorded decision.
type Choice struct {
	N    int    // alternatives
	Pick int    // the one taken
	Cost int    // 1 if a non-default pick consumes budget, 0 if free
	Kind string // for humans
}

// Result of an execution.
type Result struct {
	Choices   []Choice
	Violation string
	Pruned    bool
	Diverged  string
	Capped    bool
	Steps     int
	Outcome   uint64 // hash of the observation log
	Log       []string
	Trace     []string
	Switches  int
	Virtual   time.Duration
	FullFrom  int
	Raced     int
}

// Exec is one execution.
type Exec struct {
	gs        []*G // the goroutines; ended ones are taken off from time to time
	made      int  // goroutines so far
	compactAt int
	endedH    uint64
	cur       *G
	last      *G // goroutine that ran last
	prefix    []int
	choices   []Choice
	budget    int
	used      int
	steps     int
	maxSteps  int
	sameRun   int
	now       int64
	origin    int64
	timers    []*Timer
	tseq      int
	chans     []*vchan
	dead      bool
	finished  bool
	doneCh    chan struct{}
	killCh    chan struct{}
	res       Result
	earlyTime bool
	linger    int64
	lingered  int64 // virtual time spent so
	explore   bool  // record choices (false: freeze schedule to default)
	branchAll bool
	trace     bool
	log       []string
	logH      uint64
	obsH      uint64
	en        []*G
	visited   *Table
	prune     bool
	policy    int
	starve    int // number of the goroutine that runs last, if not negative
	libs      int // goroutines of the library started
	busy      int // steps since nothing could run
	salt      uint64
	World     any
	raceBase  int
	switches  int
}

var E *Exec

// Base of virtual time.
var Base = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

const maxTrace = 200000

//go:norace
func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x9E3779B97F4A7C15 + (a << 6) + (a >> 2))
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	return x
}

//go:norace
func hstr(s string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Options of an execution.
type Options struct {
	Prefix    []int
	Budget    int
	MaxSteps  int
	EarlyTime bool
	// Linger: a starved goroutine that could run is left waiting for this long,
	// while timers fire.
	Linger  time.Duration
	Trace   bool
	Visited *Table
	Prune   bool // end executions that reach a state already explored
	Policy  int  // default schedule: see order
	Salt    uint64
}

// between orders an execution after those before it.
var between byte

type reset struct {
	key int
	f   func()
}

var resets []reset

// OnReset registers a function that initializes a package variable of the
// code under test, or runs one of its init functions: every execution begins
// like a new program.
func OnReset(key int, f func()) {
	resets = append(resets, reset{key, f})
	sort.SliceStable(resets, func(i, j int) bool { return resets[i].key < resets[j].key })
}

//go:norace
func resetGlobals() {
	for _, r := range resets {
		r.f()
	}
}

// Run executes driver under the given options.
func Run(o Options, driver func()) Result {
	e := &Exec{prefix: o.Prefix, budget: o.Budget, maxSteps: o.MaxSteps, earlyTime: o.EarlyTime, linger: int64(o.Linger),
		trace: o.Trace, visited: o.Visited, prune: o.Prune, policy: o.Policy & 3, starve: o.Policy>>2 - 1, salt: o.Salt, explore: true}
	if e.maxSteps == 0 {
		e.maxSteps = 200000
	}
	e.doneCh = make(chan struct{}, 1)
	e.killCh = make(chan struct{}, 1)
	e.raceBase = RaceErrors()
	E = e
	g := e.newG("driver", true)
	g.h = 1
	go e.body(g, func() {
		Acquire(unsafe.Pointer(&between))
		resetGlobals()
		driver()
	})
	e.cur = g
	wakeUp(g)
	<-e.doneCh
	if RaceEnabled {
		e.res.Raced = RaceErrors() - e.raceBase
	}
	e.killAll()
	e.res.Choices = e.choices
	e.res.Steps = e.steps
	e.res.Outcome = e.obsH
	e.res.Log = e.log
	e.res.Switches = e.switches
	e.res.Virtual = time.Duration(e.now)
	if !e.finished && len(e.choices) < len(e.prefix) && e.res.Violation == "" && !e.res.Pruned {
		e.res.Diverged = fmt.Sprintf("execution ended after %d choices, prefix has %d", len(e.choices), len(e.prefix))
	}
	E = nil
	return e.res
}

//go:norace
func (e *Exec) newG(name string, sys bool) *G {
	if len(e.gs) >= 64 && len(e.gs) >= e.compactAt {
		e.compact()
	}
	g := &G{ID: e.made, idx: len(e.gs), Name: name, Sys: sys, wake: make(chan struct{}, 1), lib: -1, lateFrom: -1}
	if !sys {
		g.lib = e.libs
		e.libs++
	}
	g.w = startWaiter
	e.made++
	e.gs = append(e.gs, g)
	return g
}

// compact takes the goroutines that have ended off the list, whose order stays.
//
//go:norace
func (e *Exec) compact() {
	live := e.gs[:0]
	for _, g := range e.gs {
		if g.done && g != e.cur {
			e.endedH += e.keyOf(g)
			continue
		}
		g.idx = len(live)
		live = append(live, g)
	}
	for i := len(live); i < len(e.gs); i++ {
		e.gs[i] = nil
	}
	e.gs = live
	e.compactAt = 2*len(live) + 64
}

//go:norace
func (e *Exec) keyOf(g *G) uint64 {
	x := mix(uint64(g.ID)+77, g.h)
	if !e.prune {
		x = mix(x, g.points)
	}
	if g.w != nil {
		x = mix(x, 3)
	}
	return mix(x, 5)
}

type always struct{ s string }

//go:norace
func (a *always) Ready(*G) bool { return true }

//go:norace
func (a *always) What() string { return a.s }

var startWaiter = &always{"start"}
var yieldWaiter = &always{"yield"}

type never struct{}

//go:norace
func (never) Ready(*G) bool { return false }

//go:norace
func (never) What() string { return "block forever" }

//go:norace
func wakeUp(g *G) {
	raceOff()
	g.wake <- struct{}{}
	raceOn()
}

//go:norace
func park(g *G) {
	raceOff()
	<-g.wake
	raceOn()
}

//go:norace
func (e *Exec) body(g *G, f func()) {
	park(g)
	defer e.end(g)
	if e.dead {
		return
	}
	f()
}

//go:norace
func (e *Exec) end(g *G) {
	r := recover()
	Release(unsafe.Pointer(&between))
	if e.dead {
		raceOff()
		e.killCh <- struct{}{}
		raceOn()
		return
	}
	if r != nil {
		if e.res.Violation == "" {
			e.res.Violation = fmt.Sprintf("panic in goroutine %q: %v\n%s", g.Name, r, trimStack(debug.Stack()))
		}
		g.done = true
		g.w = nil
		e.stop()
		return
	}
	g.done = true
	g.w = nil
	g.h = mix(g.h, 0xdead)
	if g.ID == 0 {
		e.finished = true
		e.stop()
		return
	}
	e.schedule(g)
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

//go:norace
func (e *Exec) violate(msg string) {
	if e.res.Violation == "" && !e.res.Pruned {
		e.res.Violation = msg
	}
	e.stop()
}

// stop ends the execution; the calling goroutine must not touch state after it
// except to park or exit.
//
//go:norace
func (e *Exec) stop() {
	if e.dead {
		return
	}
	e.dead = true
	e.cur = nil
	raceOff()
	e.doneCh <- struct{}{}
	raceOn()
}

//go:norace
func (e *Exec) killAll() {
	for i := 0; i < len(e.gs); i++ {
		g := e.gs[i]
		if g.done {
			continue
		}
		raceOff()
		g.wake <- struct{}{}
		<-e.killCh
		raceOn()
	}
}

// Fail reports a property violation and ends the execution.
//
//go:norace
func Fail(format string, a ...any) {
	e := E
	if e == nil || e.dead {
		runtime.Goexit()
	}
	e.violate(fmt.Sprintf(format, a...))
	runtime.Goexit()
}

// Cur is the running goroutine.
//
//go:norace
func Cur() *G {
	if E == nil {
		return nil
	}
	return E.cur
}

// Active says whether an execution is running (false during package init).
//
//go:norace
func Active() bool { return E != nil && !E.dead && E.cur != nil }

// Dead reports that the execution is being torn down.
//
//go:norace
func Dead() bool { return E != nil && E.dead }

// Go starts a virtual goroutine.
//
//go:norace
func Go(f func()) {
	goNamed(f, callerName(2), false)
}

// GoSys starts a goroutine of the harness.
//
//go:norace
func GoSys(name string, f func()) *G { return goNamed(f, name, true) }

//go:norace
func callerName(skip int) string {
	pc, _, line, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	n := runtime.FuncForPC(pc).Name()
	for i := len(n) - 1; i >= 0; i-- {
		if n[i] == '/' {
			n = n[i+1:]
			break
		}
	}
	_ = line
	return n
}

//go:norace
func goNamed(f func(), name string, sys bool) *G {
	e := E
	if e == nil {
		go f()
		return nil
	}
	if e.dead {
		runtime.Goexit()
	}
	p := e.cur
	g := e.newG(name, sys)
	p.nsp++
	p.h = mix(p.h, 0x60)
	g.h = mix(p.h, 0x61)
	go e.body(g, f)
	return g
}

// Point is a scheduling point: the current goroutine waits until w is ready and
// it is chosen to run.
//
//go:norace
func Point(w Waiter) {
	e := E
	if e == nil {
		return
	}
	if e.dead {
		runtime.Goexit()
	}
	g := e.cur
	g.w = w
	g.points++
	if !e.schedule(g) {
		park(g)
		if e.dead {
			runtime.Goexit()
		}
	}
	g.w = nil
	g.yield = false
}

// Yield is an always-ready scheduling point.
//
//go:norace
func Yield() { Point(yieldWaiter) }

// Gosched yields and lets others run first by default.
//
//go:norace
func Gosched() {
	if Active() {
		E.cur.yield = true
	}
	Point(yieldWaiter)
}

// BlockForever never returns.
//
//go:norace
func BlockForever() {
	if E == nil {
		select {}
	}
	Point(never{})
}

const fairRun = 2000

// Default schedules.  All but RoundRobin let a goroutine run until it blocks.
const (
	OldestFirst = iota // then the next by age, cyclically
	RoundRobin         // switch at every scheduling point
	NewestFirst        // then the youngest that can run
)

// Starve is the default schedule pol, except that one goroutine of the library
// runs only when no other can: the k-th that was started, or for k = StarveFrom+i
// all from the i-th on.
func Starve(pol, k int) int { return pol | (k+1)<<2 }

// StarveFrom: see Starve.
const StarveFrom = 32

//go:norace
func (e *Exec) starved(g *G) bool {
	if e.starve >= StarveFrom {
		return g.lib >= e.starve-StarveFrom
	}
	return g.lib == e.starve
}

// maxLinger bounds the time goroutines are left waiting in one execution.
const maxLinger = 3 * time.Second

// lingering: all that can run are starved goroutines that have not waited long
// enough yet.
//
//go:norace
func (e *Exec) lingering(en []*G) bool {
	if e.nextTimer() < 0 || e.lingered > int64(maxLinger) {
		return false
	}
	for _, x := range en {
		if x.lib < 0 || !e.starved(x) {
			return false
		}
		if x.lateFrom < 0 {
			x.lateFrom = e.now
		}
		if e.now-x.lateFrom >= e.linger {
			return false
		}
	}
	return true
}

// schedule picks the next goroutine. Called by the goroutine g that has just
// published what it waits for (or ended); reports whether g itself goes on.
//
//go:norace
func (e *Exec) schedule(g *G) (stay bool) {
	e.steps++
	if e.steps > e.maxSteps {
		e.res.Capped = true
		e.violate(fmt.Sprintf("no end after %d steps (virtual time %v): livelock\n%s", e.steps, time.Duration(e.now), e.dump()))
		return false
	}
	for {
		en := e.en[:0]
		n := len(e.gs)
		var quiesce *G
		selfLate := g.yield || e.sameRun > fairRun || e.policy == RoundRobin
		newest := e.policy == NewestFirst && e.busy < fairRun
		e.busy++
		for k := 0; k < n; k++ {
			x := e.gs[(g.idx+k)%n]
			if newest && k > 0 {
				i := n - k
				if i <= g.idx {
					i--
				}
				x = e.gs[i]
			}
			if x.done || x.w == nil {
				continue
			}
			if k == 0 && selfLate {
				continue
			}
			if x.rvDone || x.w.Ready(x) {
				if _, ok := x.w.(*quiesceWaiter); ok {
					if quiesce == nil {
						quiesce = x
					}
					continue
				}
				en = append(en, x)
			}
		}
		if selfLate && !g.done && g.w != nil && (g.rvDone || g.w.Ready(g)) {
			if _, ok := g.w.(*quiesceWaiter); !ok {
				en = append(en, g)
			} else if quiesce == nil {
				quiesce = g
			}
		}
		e.en = en
		if len(en) == 0 {
			if quiesce != nil {
				return e.switchTo(g, quiesce)
			}
			e.busy = 0
			if e.canWake() && e.advance() {
				continue
			}
			e.violate("deadlock: nothing can run\n" + e.dump())
			return false
		}
		if e.starve >= 0 && len(en) > 1 && e.busy < fairRun {
			k := 0
			var late []*G
			for _, x := range en {
				if x.lib >= 0 && e.starved(x) {
					late = append(late, x)
				} else {
					en[k] = x
					k++
				}
			}
			// no copy(): the race detector instruments it even in norace code
			for i := 0; i < len(late); i++ {
				en[k+i] = late[i]
			}
		}
		if e.linger > 0 && e.starve >= 0 && e.explore && e.busy < fairRun && e.lingering(en) {
			e.busy = 0
			was := e.now
			e.advance()
			e.lingered += e.now - was
			continue
		}
		pick := 0
		nalt := len(en)
		if e.earlyTime && e.nextTimer() >= 0 {
			nalt++
		}
		if nalt > 1 {
			kind := "sched"
			pick = e.choose(nalt, 1, kind)
			if pick < 0 {
				return false
			}
		}
		if pick == len(en) {
			e.advance()
			continue
		}
		return e.switchTo(g, en[pick])
	}
}

//go:norace
func (e *Exec) switchTo(g, x *G) bool {
	if x == e.last {
		e.sameRun++
	} else {
		e.sameRun = 0
		e.switches++
	}
	e.last = x
	e.cur = x
	x.lateFrom = -1
	if e.trace && len(e.res.Trace) < maxTrace {
		e.res.Trace = append(e.res.Trace, fmt.Sprintf("%v g%d %s: %s", time.Duration(e.now), x.ID, x.Name, x.w.What()))
	}
	if x == g && !g.done {
		return true
	}
	wakeUp(x)
	return false
}

// choose takes the next decision.  -1: the execution was ended (pruned).
//
//go:norace
func (e *Exec) choose(n, cost int, kind string) int {
	if !e.explore && cost > 0 {
		return 0
	}
	i := len(e.choices)
	if i < len(e.prefix) {
		p := e.prefix[i]
		if p < 0 || p >= n {
			e.res.Diverged = fmt.Sprintf("choice %d: prefix wants %d of %d (%s)", i, p, n, kind)
			e.violate("replay diverged: " + e.res.Diverged)
			return -1
		}
		if p > 0 {
			e.used += cost
		}
		e.choices = append(e.choices, Choice{n, p, cost, kind})
		return p
	}
	if e.visited != nil {
		if e.visited.Seen(e.key(kind), uint8(e.budget-e.used)+1) && e.prune {
			e.res.Pruned = true
			e.stop()
			return -1
		}
	}
	e.choices = append(e.choices, Choice{n, 0, cost, kind})
	return 0
}

//go:norace
func (e *Exec) key(kind string) uint64 {
	var s uint64 = mix(e.salt, uint64(e.now))
	for i := 0; i < len(e.gs); i++ {
		s += e.keyOf(e.gs[i])
	}
	s += e.endedH
	s = mix(s, e.logH)
	last := 0
	if e.last != nil {
		last = e.last.ID
	}
	cur := -1
	if e.cur != nil {
		cur = e.cur.ID
	}
	s = mix(s, uint64(last)<<20|uint64(cur+1))
	s = mix(s, hstr(kind))
	return s
}

// Choose is a free decision of the harness among n alternatives.
//
//go:norace
func Choose(n int, kind string) int {
	e := E
	if n <= 1 {
		return 0
	}
	p := e.choose(n, 0, kind)
	if p < 0 {
		runtime.Goexit()
	}
	e.cur.h = mix(e.cur.h, uint64(p)+0x100)
	return p
}

// ChooseDev is a decision that costs budget when not 0.
//
//go:norace
func ChooseDev(n int, kind string) int {
	e := E
	if n <= 1 || e == nil {
		return 0
	}
	if e.dead {
		return 0
	}
	p := e.choose(n, 1, kind)
	if p < 0 {
		runtime.Goexit()
	}
	e.cur.h = mix(e.cur.h, uint64(p)+0x200)
	return p
}

// Freeze stops deviations: from here on only the default schedule is followed
// (used for long lead-ins; Unfreeze ends it).  Free choices are still explored.
//
//go:norace
func Freeze() { E.explore = false }

//go:norace
func Unfreeze() { E.explore = true }

//go:norace
func Frozen() bool { return !E.explore }

// SetEarlyTime allows or forbids timers to fire while goroutines can run.
//
//go:norace
func SetEarlyTime(b bool) { E.earlyTime = b }

// Touch records an operation of the current goroutine on an object with history
// hash *h.
//
//go:norace
func Touch(h *uint64, op uint64) {
	e := E
	if e == nil || e.cur == nil {
		return
	}
	g := e.cur
	g.h = mix(mix(g.h, op), *h)
	*h = mix(g.h, 9)
}

// Commute records an operation on an object with history h that commutes with
// the others recorded by Commute since the last Touch; r collects those.
//
//go:norace
func Commute(h, r *uint64, op uint64) {
	e := E
	if e == nil || e.cur == nil {
		return
	}
	g := e.cur
	g.h = mix(mix(g.h, op), *h)
	*r += mix(g.h, 11)
}

// TouchAll is Touch for objects that are also subject to Commute.
//
//go:norace
func TouchAll(h, r *uint64, op uint64) {
	*h = mix(*h, *r)
	*r = 0
	Touch(h, op)
}

// Note mixes a locally observed value into the history of the goroutine.
//
//go:norace
func Note(v uint64) {
	e := E
	if e == nil || e.cur == nil {
		return
	}
	e.cur.h = mix(e.cur.h, v)
}

// Logf adds an observation to the execution's log; the order of observations is
// part of the state.
//
//go:norace
func Logf(format string, a ...any) {
	e := E
	if e == nil || e.dead {
		return
	}
	s := fmt.Sprintf(format, a...)
	LogEvent(hstr(s))
	if e.trace {
		e.log = append(e.log, fmt.Sprintf("%v %s", time.Duration(e.now), s))
		e.res.Trace = append(e.res.Trace, fmt.Sprintf("%v   LOG %s", time.Duration(e.now), s))
	}
}

// LogEvent is Logf for a hash.
//
//go:norace
func LogEvent(x uint64) {
	e := E
	if e == nil || e.dead {
		return
	}
	if e.cur != nil {
		e.cur.h = mix(mix(e.cur.h, x), e.logH)
	}
	e.logH = mix(e.logH, x)
	e.obsH = mix(e.obsH, x)
}

// Tracing tells whether a trace is being recorded.
//
//go:norace
func Tracing() bool { return E != nil && E.trace }

//go:norace
func (e *Exec) dump() string {
	s := ""
	for _, g := range e.gs {
		if g.done {
			continue
		}
		w := "running"
		if g.w != nil {
			w = g.w.What()
		}
		lab := ""
		if g.Label != "" {
			lab = " [" + g.Label + "]"
		}
		s += fmt.Sprintf("  g%d %s%s: %s\n", g.ID, g.Name, lab, w)
	}
	return s
}

// Dump describes the live goroutines.
func Dump() string { return E.dump() }

// Live lists the goroutines of the code under test that have not ended.
//
//go:norace
func Live() []string {
	var r []string
	for _, g := range E.gs {
		if g.done || g.Sys {
			continue
		}
		w := "running"
		if g.w != nil {
			w = g.w.What()
		}
		r = append(r, fmt.Sprintf("g%d %s: %s", g.ID, g.Name, w))
	}
	return r
}

// Label names what the current harness goroutine is doing.
//
//go:norace
func Label(s string) {
	if Active() {
		E.cur.Label = s
	}
}

type quiesceWaiter struct{}

//go:norace
func (*quiesceWaiter) Ready(*G) bool { return true }

//go:norace
func (*quiesceWaiter) What() string { return "wait for quiescence" }

// Quiesce returns when nothing else can run without time passing.
//
//go:norace
func Quiesce() { Point(&quiesceWaiter{}) }

// Join waits for a harness goroutine to end.
type joinWaiter struct{ g *G }

//go:norace
func (j *joinWaiter) Ready(*G) bool { return j.g.done }

//go:norace
func (j *joinWaiter) What() string { return "join " + j.g.Name }

//go:norace
func Join(g *G) {
	Point(&joinWaiter{g})
	E.cur.h = mix(E.cur.h, g.h)
}

//go:norace
func (g *G) Done() bool { return g.done }

var _ = unsafe.Pointer(nil)
