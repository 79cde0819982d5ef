// Package vsync stands in for package sync.
package vsync

import (
	"fmt"
	"unsafe"

	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a virtual sync.Mutex.
type Mutex struct {
	e      *vrt.Exec // the execution the state belongs to
	locked bool
	h      uint64
	s      byte
}

// enter forgets what an earlier, abandoned execution left behind.
//
//go:norace
func (m *Mutex) enter() {
	if m.e != vrt.E && vrt.E != nil {
		m.e, m.locked, m.h = vrt.E, m.e == nil && m.locked, 0
	}
}

type mutexWaiter struct{ m *Mutex }

//go:norace
func (w *mutexWaiter) Ready(*vrt.G) bool { return !w.m.locked }

//go:norace
func (w *mutexWaiter) What() string { return fmt.Sprintf("Mutex.Lock(locked=%v)", w.m.locked) }

//go:norace
func (m *Mutex) Lock() {
	if vrt.E == nil {
		m.locked = true
		return
	}
	m.enter()
	vrt.Point(&mutexWaiter{m})
	m.locked = true
	vrt.Touch(&m.h, 0x30)
	vrt.Acquire(unsafe.Pointer(&m.s))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if vrt.E == nil {
		was := m.locked
		m.locked = true
		return !was
	}
	m.enter()
	vrt.Yield()
	vrt.Touch(&m.h, 0x31)
	if m.locked {
		return false
	}
	m.locked = true
	vrt.Acquire(unsafe.Pointer(&m.s))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if vrt.Dead() {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	if vrt.E == nil {
		m.locked = false
		return
	}
	vrt.Touch(&m.h, 0x32)
	vrt.Release(unsafe.Pointer(&m.s))
	m.locked = false
	vrt.Yield()
}

// RWMutex is a virtual sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	e       *vrt.Exec
	readers int
	writer  bool
	waiting int
	h, r    uint64
	s, rs   byte
}

//go:norace
func (m *RWMutex) enter() {
	if m.e != vrt.E && vrt.E != nil {
		if m.e != nil {
			m.readers, m.writer, m.waiting = 0, false, 0
		}
		m.e, m.h, m.r = vrt.E, 0, 0
	}
}

type rwWaiter struct {
	m     *RWMutex
	write bool
}

//go:norace
func (w *rwWaiter) Ready(*vrt.G) bool {
	if w.write {
		return !w.m.writer && w.m.readers == 0
	}
	return !w.m.writer && w.m.waiting == 0
}

//go:norace
func (w *rwWaiter) What() string {
	op := "RLock"
	if w.write {
		op = "Lock"
	}
	return fmt.Sprintf("RWMutex.%s(readers=%d writer=%v waiting=%d)", op, w.m.readers, w.m.writer, w.m.waiting)
}

//go:norace
func (m *RWMutex) Lock() {
	if vrt.E == nil {
		m.writer = true
		return
	}
	m.enter()
	vrt.Yield()
	vrt.TouchAll(&m.h, &m.r, 0x33)
	m.waiting++
	vrt.Point(&rwWaiter{m, true})
	m.waiting--
	m.writer = true
	vrt.TouchAll(&m.h, &m.r, 0x34)
	vrt.Acquire(unsafe.Pointer(&m.s))
	vrt.Acquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if vrt.E != nil {
		m.enter()
		vrt.Yield()
		vrt.TouchAll(&m.h, &m.r, 0x35)
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vrt.Acquire(unsafe.Pointer(&m.s))
	vrt.Acquire(unsafe.Pointer(&m.rs))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if vrt.Dead() {
		return
	}
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	if vrt.E == nil {
		m.writer = false
		return
	}
	vrt.TouchAll(&m.h, &m.r, 0x36)
	vrt.Release(unsafe.Pointer(&m.s))
	m.writer = false
	vrt.Yield()
}

//go:norace
func (m *RWMutex) RLock() {
	if vrt.E == nil {
		m.readers++
		return
	}
	m.enter()
	vrt.Point(&rwWaiter{m, false})
	m.readers++
	vrt.Commute(&m.h, &m.r, 0x37)
	vrt.Acquire(unsafe.Pointer(&m.s))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if vrt.E != nil {
		m.enter()
		vrt.Yield()
		vrt.Commute(&m.h, &m.r, 0x38)
	}
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vrt.Acquire(unsafe.Pointer(&m.s))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if vrt.Dead() {
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	if vrt.E == nil {
		m.readers--
		return
	}
	vrt.Commute(&m.h, &m.r, 0x39)
	vrt.Release(unsafe.Pointer(&m.rs))
	m.readers--
	vrt.Yield()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a virtual sync.WaitGroup.
type WaitGroup struct {
	e       *vrt.Exec
	n       int
	waiters int
	h, r    uint64
	s       byte
}

//go:norace
func (w *WaitGroup) enter() {
	if w.e != vrt.E && vrt.E != nil {
		if w.e != nil {
			w.n = 0
		}
		w.e, w.h, w.r = vrt.E, 0, 0
	}
}

type wgWaiter struct{ w *WaitGroup }

//go:norace
func (w *wgWaiter) Ready(*vrt.G) bool { return w.w.n == 0 }

//go:norace
func (w *wgWaiter) What() string { return fmt.Sprintf("WaitGroup.Wait(%d)", w.w.n) }

//go:norace
func (w *WaitGroup) Add(d int) {
	if vrt.Dead() {
		return
	}
	if vrt.E != nil {
		w.enter()
		vrt.Yield()
		vrt.Commute(&w.h, &w.r, 0x40)
	}
	if d < 0 {
		vrt.Release(unsafe.Pointer(&w.s))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if vrt.E == nil {
		return
	}
	w.enter()
	vrt.Point(&wgWaiter{w})
	vrt.TouchAll(&w.h, &w.r, 0x41)
	vrt.Acquire(unsafe.Pointer(&w.s))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a virtual sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is a virtual sync.Cond.
type Cond struct {
	L  Locker
	q  []*condWaiter
	h  uint64
	sy byte
}

type condWaiter struct{ woken bool }

//go:norace
func (w *condWaiter) Ready(*vrt.G) bool { return w.woken }

//go:norace
func (w *condWaiter) What() string { return "Cond.Wait" }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enq() *condWaiter {
	w := &condWaiter{}
	c.q = append(c.q, w)
	vrt.Touch(&c.h, 0x42)
	return w
}

//go:norace
func (c *Cond) Wait() {
	w := c.enq()
	c.L.Unlock()
	vrt.Point(w)
	vrt.Touch(&c.h, 0x43)
	vrt.Acquire(unsafe.Pointer(&c.sy))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	vrt.Yield()
	vrt.Touch(&c.h, 0x44)
	vrt.Release(unsafe.Pointer(&c.sy))
	if len(c.q) > 0 {
		c.q[0].woken = true
		c.q = c.q[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	vrt.Yield()
	vrt.Touch(&c.h, 0x45)
	vrt.Release(unsafe.Pointer(&c.sy))
	for i := 0; i < len(c.q); i++ {
		c.q[i].woken = true
	}
	c.q = nil
}

// Pool is a virtual sync.Pool: last in, first out, so that reuse happens as soon
// as it can.
type Pool struct {
	New func() any
	m   Mutex
	a   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	var v any
	if n := len(p.a); n > 0 {
		v = p.a[n-1]
		p.a = p.a[:n-1]
	}
	p.m.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.a = append(p.a, v)
	p.m.Unlock()
}

// Map is a virtual sync.Map.
type Map struct {
	mu Mutex
	m  map[any]any
	ks []any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.ks {
			if x == k {
				m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; ok && x == old {
		m.set(k, v)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
	m.ks = nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	ks := append([]any(nil), m.ks...)
	m.mu.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
