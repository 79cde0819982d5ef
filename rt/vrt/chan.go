package vrt

import (
	"fmt"
	"runtime"
	"unsafe"
)

// vchan is the state of a channel of the code under test.  The native channel
// only serves as its identity.
type vchan struct {
	p      unsafe.Pointer
	ref    any
	cap    int
	buf    []any
	r, n   int
	closed bool
	h      uint64
	id     int
	sync   byte
}

//go:norace
func chanPtr[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

//go:norace
func lookup(p unsafe.Pointer, cap_ int, ref any) *vchan {
	if p == nil {
		return nil
	}
	e := E
	for i := len(e.chans) - 1; i >= 0; i-- {
		if e.chans[i].p == p {
			return e.chans[i]
		}
	}
	c := &vchan{p: p, cap: cap_, ref: ref, id: len(e.chans)}
	n := cap_
	if n == 0 {
		n = 1
	}
	c.buf = make([]any, n)
	e.chans = append(e.chans, c)
	return c
}

//go:norace
func vcR[T any](c <-chan T) *vchan {
	if c == nil {
		return nil
	}
	return lookup(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), c)
}

//go:norace
func vcS[T any](c chan<- T) *vchan {
	if c == nil {
		return nil
	}
	return lookup(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), c)
}

//go:norace
func (c *vchan) slot(i int) unsafe.Pointer { return unsafe.Pointer(&c.buf[i%len(c.buf)]) }

// push/pop of a buffered channel
//
//go:norace
func (c *vchan) push(v any) {
	i := (c.r + c.n) % c.cap
	Acquire(c.slot(i))
	Release(c.slot(i))
	c.buf[i] = v
	c.n++
}

//go:norace
func (c *vchan) pop() any {
	i := c.r
	Acquire(c.slot(i))
	Release(c.slot(i))
	v := c.buf[i]
	c.buf[i] = nil
	c.r = (c.r + 1) % c.cap
	c.n--
	return v
}

// selCase is one communication of a select (or a plain send/receive).
type selCase struct {
	c    *vchan
	send bool
	val  any
	// result
	rv any
	ok bool
}

// partner finds a goroutine other than g waiting for the opposite operation on
// an unbuffered channel.
//
//go:norace
func partner(g *G, c *vchan, wantSend bool) (*G, int) {
	e := E
	for _, x := range e.gs {
		if x == g || x.done || x.w == nil || x.rvDone {
			continue
		}
		s, ok := x.w.(*selWaiter)
		if !ok {
			continue
		}
		for i := range s.cases {
			if s.cases[i].c == c && s.cases[i].send == wantSend {
				return x, i
			}
		}
	}
	return nil, 0
}

//go:norace
func (k *selCase) ready(g *G) bool {
	c := k.c
	if c == nil {
		return false
	}
	if k.send {
		if c.closed {
			return true // panics
		}
		if c.cap > 0 {
			return c.n < c.cap
		}
		x, _ := partner(g, c, false)
		return x != nil
	}
	if c.n > 0 || c.closed {
		return true
	}
	if c.cap > 0 {
		return false
	}
	x, _ := partner(g, c, true)
	return x != nil
}

type selWaiter struct {
	cases []*selCase
	def   bool
}

//go:norace
func (s *selWaiter) Ready(g *G) bool {
	if s.def {
		return true
	}
	for _, k := range s.cases {
		if k.ready(g) {
			return true
		}
	}
	return false
}

//go:norace
func (s *selWaiter) What() string {
	r := ""
	for i, k := range s.cases {
		if i > 0 {
			r += " | "
		}
		if k.c == nil {
			r += "nil chan"
			continue
		}
		if k.send {
			r += fmt.Sprintf("send ch%d(%d/%d)", k.c.id, k.c.n, k.c.cap)
		} else {
			r += fmt.Sprintf("recv ch%d(%d/%d)", k.c.id, k.c.n, k.c.cap)
		}
		if k.c.closed {
			r += " closed"
		}
	}
	if s.def {
		r += " | default"
	}
	return r
}

// perform executes case i for the running goroutine g.
//
//go:norace
func (s *selWaiter) perform(g *G, i int) {
	k := s.cases[i]
	c := k.c
	if k.send {
		if c.closed {
			panic("send on closed channel")
		}
		Touch(&c.h, 0x10)
		if c.cap > 0 {
			c.push(k.val)
			return
		}
		x, j := partner(g, c, false)
		pk := x.w.(*selWaiter).cases[j]
		pk.rv, pk.ok = k.val, true
		x.rvDone, x.rvIdx = true, j
		Release(unsafe.Pointer(&c.sync))
		Acquire(unsafe.Pointer(&c.sync))
		x.h = mix(x.h, c.h)
		return
	}
	Touch(&c.h, 0x11)
	if c.n > 0 {
		k.rv, k.ok = c.pop(), true
		return
	}
	if c.closed {
		Acquire(unsafe.Pointer(&c.sync))
		k.rv, k.ok = nil, false
		return
	}
	x, j := partner(g, c, true)
	pk := x.w.(*selWaiter).cases[j]
	k.rv, k.ok = pk.val, true
	x.rvDone, x.rvIdx = true, j
	Acquire(unsafe.Pointer(&c.sync))
	Release(unsafe.Pointer(&c.sync))
	x.h = mix(x.h, c.h)
}

//go:norace
func doSelect(s *selWaiter) int {
	e := E
	if e.dead {
		runtime.Goexit()
	}
	// unbuffered communications publish their data before parking
	if RaceEnabled {
		for _, k := range s.cases {
			if k.c != nil && k.c.cap == 0 {
				Release(unsafe.Pointer(&k.c.sync))
			}
		}
	}
	Point(s)
	g := e.cur
	if g.rvDone {
		g.rvDone = false
		Acquire(unsafe.Pointer(&s.cases[g.rvIdx].c.sync))
		g.h = mix(g.h, uint64(g.rvIdx)+0x300)
		return g.rvIdx
	}
	n := 0
	first := -1
	for i, k := range s.cases {
		if k.ready(g) {
			n++
			if first < 0 {
				first = i
			}
		}
	}
	if n == 0 {
		// default: what was observed is the state of all channels
		for _, k := range s.cases {
			if k.c != nil {
				Touch(&k.c.h, 0x12)
			}
		}
		return -1
	}
	i := first
	if n > 1 {
		p := ChooseDev(n, "select")
		for ; i < len(s.cases); i++ {
			if s.cases[i].ready(g) {
				if p == 0 {
					break
				}
				p--
			}
		}
	}
	g.h = mix(g.h, uint64(i)+0x400)
	s.perform(g, i)
	return i
}

// ---- operations the rewritten code calls ----

// SendTo returns the send function of a channel (two steps so that the element
// type is inferred from the channel alone).
//
//go:norace
func SendTo[T any](c chan<- T) Sender[T] { return Sender[T]{c} }

type Sender[T any] struct{ c chan<- T }

//go:norace
func (s Sender[T]) Send(v T) {
	if E == nil {
		s.c <- v
		return
	}
	doSelect(&selWaiter{cases: []*selCase{{c: vcS(s.c), send: true, val: v}}})
}

//go:norace
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	if E == nil {
		v, ok := <-c
		return v, ok
	}
	k := &selCase{c: vcR(c)}
	doSelect(&selWaiter{cases: []*selCase{k}})
	var z T
	if !k.ok {
		return z, false
	}
	z, _ = k.rv.(T)
	return z, true
}

//go:norace
func Close[T any](c chan<- T) {
	if E == nil {
		close(c)
		return
	}
	if E.dead {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	Point(yieldWaiter)
	v := vcS(c)
	if v.closed {
		panic("close of closed channel")
	}
	Touch(&v.h, 0x13)
	v.closed = true
	Release(unsafe.Pointer(&v.sync))
}

//go:norace
func Len[T any](c <-chan T) int {
	if E == nil {
		return len(c)
	}
	if c == nil || E.dead {
		return 0
	}
	Point(yieldWaiter)
	v := vcR(c)
	Touch(&v.h, 0x14)
	return v.n
}

// RangeChan starts a range loop over a channel.
//
//go:norace
func RangeChan[T any](c <-chan T) (*RC[T], T, bool) {
	r := &RC[T]{c}
	v, ok := Recv2(c)
	return r, v, ok
}

type RC[T any] struct{ c <-chan T }

//go:norace
func (r *RC[T]) Next() (T, bool) { return Recv2(r.c) }

// Case is a typed select case.
type Case interface{ sel() *selCase }

type RCase[T any] struct{ k selCase }

//go:norace
func (r *RCase[T]) sel() *selCase { return &r.k }

//go:norace
func (r *RCase[T]) Val() T {
	v, _ := r.Val2()
	return v
}

//go:norace
func (r *RCase[T]) Val2() (T, bool) {
	var z T
	if !r.k.ok {
		return z, false
	}
	z, _ = r.k.rv.(T)
	return z, true
}

//go:norace
func RecvCase[T any](c <-chan T) *RCase[T] {
	if E == nil {
		panic("vrt: select outside an execution")
	}
	return &RCase[T]{selCase{c: vcR(c)}}
}

type SCase struct{ k selCase }

//go:norace
func (s *SCase) sel() *selCase { return &s.k }

type SendCaser[T any] struct{ c chan<- T }

//go:norace
func SendCase[T any](c chan<- T) SendCaser[T] { return SendCaser[T]{c} }

//go:norace
func (s SendCaser[T]) With(v T) *SCase {
	return &SCase{selCase{c: vcS(s.c), send: true, val: v}}
}

// Select runs a select statement; -1 is the default case.
//
//go:norace
func Select(def bool, cs ...Case) int {
	w := &selWaiter{def: def}
	for _, c := range cs {
		w.cases = append(w.cases, c.sel())
	}
	return doSelect(w)
}
