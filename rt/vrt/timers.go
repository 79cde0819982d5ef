package vrt

import (
	"time"
	"unsafe"
)

// Timer is a virtual timer or ticker.
type Timer struct {
	when   int64
	period int64
	seq    int
	active bool
	ch     *vchan
	fn     func()
	sync   byte
	h      uint64
	name   string
}

//go:norace
func (e *Exec) nextTimer() int64 {
	best := int64(-1)
	for _, t := range e.timers {
		if t.active && (best < 0 || t.when < best) {
			best = t.when
		}
	}
	return best
}

// canWake says whether some timer can still make something happen (a ticker whose
// channel is full cannot).
//
//go:norace
func (e *Exec) canWake() bool {
	for _, t := range e.timers {
		if !t.active {
			continue
		}
		if t.period == 0 || t.ch == nil || t.ch.n < t.ch.cap {
			return true
		}
	}
	return false
}

// advance moves the clock to the next timer and fires everything due.
//
//go:norace
func (e *Exec) advance() bool {
	when := e.nextTimer()
	if when < 0 {
		return false
	}
	if when > e.now {
		e.now = when
	}
	for {
		var t *Timer
		for _, x := range e.timers {
			if x.active && x.when <= e.now && (t == nil || x.when < t.when || (x.when == t.when && x.seq < t.seq)) {
				t = x
			}
		}
		if t == nil {
			break
		}
		e.fire(t)
	}
	return true
}

//go:norace
func (e *Exec) fire(t *Timer) {
	at := t.when
	if t.period > 0 {
		t.when += t.period
		if t.when <= e.now {
			t.when = e.now + t.period
		}
	} else {
		t.active = false
		e.dropTimer(t)
	}
	t.h = mix(t.h, uint64(at)+5)
	if t.fn != nil {
		g := e.newG("timer func "+t.name, false)
		g.h = mix(t.h, 0x62)
		go e.body(g, t.fn)
		return
	}
	if t.ch != nil {
		t.ch.h = mix(t.ch.h, uint64(at)+6)
		if t.ch.n < t.ch.cap {
			i := (t.ch.r + t.ch.n) % t.ch.cap
			t.ch.buf[i] = Base.Add(time.Duration(e.now))
			t.ch.n++
		}
	}
}

//go:norace
func (e *Exec) dropTimer(t *Timer) {
	for i, x := range e.timers {
		if x == t {
			for j := i; j+1 < len(e.timers); j++ {
				e.timers[j] = e.timers[j+1]
			}
			e.timers = e.timers[:len(e.timers)-1]
			return
		}
	}
}

// StartTimer starts a timer that delivers into c (buffered, capacity 1) or runs fn.
//
//go:norace
func StartTimer(d, period time.Duration, c chan time.Time, fn func()) *Timer {
	e := E
	if e == nil {
		panic("vrt: timer outside an execution")
	}
	if d < 0 {
		d = 0
	}
	t := &Timer{period: int64(period), fn: fn}
	if c != nil {
		t.ch = vcS[time.Time](c)
	}
	if fn != nil {
		t.name = callerName(3)
		inner := fn
		t.fn = func() {
			Acquire(unsafe.Pointer(&t.sync))
			inner()
		}
	}
	if e.dead {
		return t
	}
	t.arm(d)
	return t
}

//go:norace
func (t *Timer) arm(d time.Duration) {
	e := E
	if d < 0 {
		d = 0
	}
	Release(unsafe.Pointer(&t.sync))
	if t.ch != nil {
		Release(t.ch.slot(0))
	}
	Touch(&t.h, 0x20)
	t.when = e.now + int64(d)
	t.seq = e.tseq
	e.tseq++
	t.active = true
	e.timers = append(e.timers, t)
}

// Stop disarms; reports whether it was armed.
//
//go:norace
func (t *Timer) Stop() bool {
	if E == nil || E.dead {
		return false
	}
	Point(yieldWaiter)
	Touch(&t.h, 0x21)
	was := t.active
	if was {
		t.active = false
		E.dropTimer(t)
	}
	// since Go 1.23 no stale value is received after Stop
	if t.ch != nil && t.ch.n > 0 && t.period == 0 {
		t.ch.n = 0
		was = true
	}
	return was
}

// Reset re-arms.
//
//go:norace
func (t *Timer) Reset(d, period time.Duration) bool {
	if E == nil || E.dead {
		return false
	}
	Point(yieldWaiter)
	was := t.active
	if was {
		E.dropTimer(t)
	}
	if t.ch != nil {
		t.ch.n = 0
	}
	t.period = int64(period)
	t.arm(d)
	return was
}

// Now is the virtual time.
//
//go:norace
func Now() time.Time {
	e := E
	if e == nil {
		return Base
	}
	if e.cur != nil {
		e.cur.h = mix(e.cur.h, uint64(e.now)+7)
	}
	return Base.Add(time.Duration(e.now))
}

// Elapsed is the virtual time since the start of the execution, or since Rebase
// was called.
//
//go:norace
func Elapsed() time.Duration { return time.Duration(E.now - E.origin) }

// Clock is the virtual time, without taking note that it was looked at.
//
//go:norace
func Clock() time.Time { return Base.Add(time.Duration(E.now)) }

// Rebase makes now the moment from which Elapsed counts.
//
//go:norace
func Rebase() { E.origin = E.now }

type sleepWaiter struct{ until int64 }

//go:norace
func (s *sleepWaiter) Ready(*G) bool { return E.now >= s.until }

//go:norace
func (s *sleepWaiter) What() string { return "sleep until " + time.Duration(s.until).String() }

// Sleep blocks for d of virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	e := E
	if e == nil {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	if e.dead {
		return
	}
	until := e.now + int64(d)
	t := &Timer{when: until, seq: e.tseq, active: true}
	e.tseq++
	e.timers = append(e.timers, t)
	Point(&sleepWaiter{until})
	e.cur.h = mix(e.cur.h, uint64(until)+8)
}

// Alarm makes the clock stop at now+d even if nothing else is due then.
//
//go:norace
func Alarm(d time.Duration) {
	e := E
	if e == nil || e.dead {
		return
	}
	t := &Timer{when: e.now + int64(d), seq: e.tseq, active: true}
	e.tseq++
	e.timers = append(e.timers, t)
}
