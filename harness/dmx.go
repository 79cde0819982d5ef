package main

import (
	"bytes"
	"fmt"
	"net"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

func uni(n byte) artnet.Address { return artnet.Address{SubUni: n} }

// payload is the value with this number for an address: it identifies itself and
// its address in every byte.
func payload(a artnet.Address, writer, ver int) (d [512]byte) {
	x := uint32(a.Net)<<24 | uint32(a.SubUni)<<16 | uint32(writer)<<12 | uint32(ver)
	for i := range d {
		x = x*1664525 + 1013904223 + uint32(i)
		d[i] = byte(x >> 24)
	}
	d[0], d[1] = byte(writer), byte(ver)
	d[511] = byte(ver) ^ 0xff
	return
}

// setop is one call of SendDMXToAddress.
type setop struct {
	writer, ver int
	inv, ret    int // order of events; ret -1: not returned
	invT, retT  time.Duration
	maybe       bool // the address may not be known when it is called
	noop        bool // the address is not known
	seen        bool
}

type sentFrame struct {
	ord int
	at  time.Duration
	to  net.UDPAddr
	d   []byte
}

// ledger relates what was set to what was sent.
type ledger struct {
	w         *vnet.World
	ord       int
	sets      map[artnet.Address][]*setop
	epoch     map[artnet.Address][]int // times (in event order) at which data may have been dropped
	frames    map[artnet.Address][]sentFrame
	n         map[[2]int]int
	untracked bool // values are also set without the ledger
}

func newLedger(w *vnet.World) *ledger {
	l := &ledger{w: w, sets: map[artnet.Address][]*setop{}, epoch: map[artnet.Address][]int{}, frames: map[artnet.Address][]sentFrame{}, n: map[[2]int]int{}}
	w.OnSend = func(d *vnet.Datagram) {
		if op(d.Data) != 0x5000 {
			return
		}
		l.ord++
		if len(d.Data) != 530 || d.Data[10] != 0 || d.Data[11] != 14 || d.Data[16] != 2 || d.Data[17] != 0 {
			fail("malformed ArtDmx packet sent: %d bytes, % x", len(d.Data), d.Data[:18])
		}
		a := artnet.Address{Net: d.Data[15], SubUni: d.Data[14]}
		l.frames[a] = append(l.frames[a], sentFrame{l.ord, d.At, d.To, d.Data})
	}
	return l
}

func (l *ledger) set(c *artnet.Controller, writer int, a artnet.Address, maybe, noop bool) *setop {
	key := [2]int{writer, a.Integer()}
	l.n[key]++
	l.ord++
	s := &setop{writer: writer, ver: l.n[key], inv: l.ord, ret: -1, invT: vrt.Elapsed(), maybe: maybe, noop: noop}
	l.sets[a] = append(l.sets[a], s)
	vrt.LogEvent(uint64(s.invT)<<16 | uint64(writer)<<8 | uint64(s.ver))
	c.SendDMXToAddress(payload(a, writer, s.ver), a)
	l.ord++
	s.ret, s.retT = l.ord, vrt.Elapsed()
	vrt.LogEvent(uint64(s.retT)<<16 | uint64(writer)<<8 | uint64(s.ver))
	return s
}

// dropped notes that the address was withdrawn.
func (l *ledger) dropped(a artnet.Address) {
	l.ord++
	l.epoch[a] = append(l.epoch[a], l.ord)
}

var zeros [512]byte

// value finds what a frame carries: nil is black.
func (l *ledger) value(a artnet.Address, f sentFrame) *setop {
	d := f.d[18:]
	if bytes.Equal(d, zeros[:]) {
		return nil
	}
	for _, s := range l.sets[a] {
		p := payload(a, s.writer, s.ver)
		if bytes.Equal(d, p[:]) {
			if s.noop {
				fail("%v: a value set while the address was not known is sent", a)
			}
			return s
		}
	}
	for _, s := range l.sets[a] {
		p := payload(a, s.writer, s.ver)
		same := 0
		for i := range p {
			if p[i] == d[i] {
				same++
			}
		}
		if same > 100 {
			fail("%v: the ArtDmx packet sent at %v is a mixture: %d of 512 values are those of one set call", a, f.at, same)
		}
	}
	for b, ss := range l.sets {
		for _, s := range ss {
			p := payload(b, s.writer, s.ver)
			if bytes.Equal(d, p[:]) {
				fail("%v: the ArtDmx packet sent at %v carries the data of %v", a, f.at, b)
			}
		}
	}
	fail("%v: the ArtDmx packet sent at %v carries data never set: % x..", a, f.at, d[:8])
	return nil
}

// check judges all frames.  owner gives the node each address belongs to.  With
// interval > 0 the delivery time is checked too, up to the time end.
func (l *ledger) check(owner map[artnet.Address]net.IP, interval, end time.Duration) {
	for a, fs := range l.frames {
		ip := owner[a]
		if ip == nil {
			fail("ArtDmx sent for the address %v, which nobody announced", a)
		}
		var last *setop
		lastEp := 0
		for i, f := range fs {
			if !sameAddr(f.to, net.UDPAddr{IP: ip, Port: 6454}) {
				fail("%v: ArtDmx sent to %v, announced by %v", a, f.to.String(), ip)
			}
			v := l.value(a, f)
			ep := 0
			for _, o := range l.epoch[a] {
				if f.ord > o {
					ep = o
				}
			}
			if ep != lastEp {
				last, lastEp = nil, ep
			}
			if v != nil && v.inv < ep {
				v = nil // kept from before: as good as black
			}
			if i > 0 && last != nil && last != v {
				if v == nil {
					fail("%v: black or old data sent at %v after value %d of writer %d", a, f.at, last.ver, last.writer)
				}
				if v.seen || v.ret >= 0 && v.ret < last.inv {
					fail("%v: value %d of writer %d sent at %v after the newer value %d of writer %d", a, v.ver, v.writer, f.at, last.ver, last.writer)
				}
			}
			if v != nil {
				v.seen = true
			}
			last = v
			if interval == 0 {
				continue
			}
			for _, s := range l.sets[a] {
				if s.noop || s.maybe && !s.seen || s.ret < 0 || s.ret < ep || s.retT >= f.at || s == v {
					continue
				}
				if v == nil || v.ret >= 0 && v.ret < s.inv {
					fail("%v: the packet sent at %v does not carry value %d of writer %d set at %v", a, f.at, s.ver, s.writer, s.retT)
				}
			}
		}
	}
	if interval == 0 {
		return
	}
	for a, ss := range l.sets {
		for i, s := range ss {
			if s.noop || s.maybe || s.ret < 0 || s.retT+interval > end {
				continue
			}
			super := false
			for _, o := range ss[i+1:] {
				if !o.noop && o.invT <= s.retT+interval {
					super = true
				}
			}
			for _, o := range ss[:i] {
				if o.ret < 0 || o.ret > s.inv {
					super = true
				}
			}
			for _, o := range l.epoch[a] {
				if o > s.inv {
					super = true // withdrawn later (perhaps too soon)
				}
			}
			if super {
				continue
			}
			ok := false
			for _, f := range l.frames[a] {
				if f.ord > s.inv && f.at <= s.retT+interval && l.value(a, f) == s {
					ok = true
				}
			}
			if !ok {
				fail("%v: value %d of writer %d, set at %v, was not sent within one frame interval (%v)", a, s.ver, s.writer, s.retT, interval)
			}
		}
	}
}

// final demands that the last frame of each address carries the last value.
func (l *ledger) final(a artnet.Address) {
	fs := l.frames[a]
	if len(fs) == 0 {
		fail("%v: nothing was sent", a)
	}
	v := l.value(a, fs[len(fs)-1])
	for _, s := range l.sets[a] {
		if s.noop || s.maybe && !s.seen || s == v {
			continue
		}
		if v == nil || v.ret < s.inv {
			fail("%v: the value set last is never sent", a)
		}
	}
}

func owners(as ...announcement) map[artnet.Address]net.IP {
	m := map[artnet.Address]net.IP{}
	for _, a := range as {
		for _, x := range a.addrs() {
			m[x] = a.ip
		}
	}
	return m
}

func init() {
	scn(&Scenario{Prop: "C18", Name: "c18-sequences", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "all sequences of 4 of 11 operations: set one of 4 addresses (known, added later, of another node, never known), poll replies that keep, add, swap, drop and take back ports, waiting half a frame, a frame or 300 ms",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			c := startCtl(10)
			vrt.Sleep(33 * ms)
			base := outNode(50, 1, 2)
			other := outNode(51, 5).at(3, 4)
			o5 := other.addrs()[0]
			knownA := map[artnet.Address]bool{uni(1): true, uni(2): true, o5: true}
			own := owners(outNode(50, 1, 2, 3), other)
			reply(w, base)
			vrt.Quiesce()
			reply(w, other)
			vrt.Quiesce()
			announce := func(us ...byte) {
				now := map[artnet.Address]bool{}
				for _, u := range us {
					now[uni(u)] = true
				}
				for a := range own {
					if a != o5 && knownA[a] && !now[a] {
						l.dropped(a)
					}
					if a != o5 {
						knownA[a] = now[a]
					}
				}
				reply(w, outNode(50, us...))
			}
			for i := 0; i < 4; i++ {
				switch k := choose(11, "operation"); k {
				case 0, 1, 2:
					a := uni(byte(k + 1))
					l.set(c, 1, a, false, !knownA[a])
				case 3:
					l.set(c, 1, o5, false, false)
				case 4:
					l.set(c, 1, artnet.Address{Net: 3, SubUni: 5}, false, true)
				case 5:
					announce(1, 2)
				case 6:
					announce(1, 2, 3)
				case 7:
					announce(3, 1)
				case 8:
					reply(w, other)
				case 9:
					vrt.Sleep(50 * ms)
				case 10:
					vrt.Sleep(pick("wait", 100*ms, 300*ms))
				}
				vrt.Quiesce()
			}
			vrt.Sleep(450 * ms)
			vrt.Quiesce()
			l.check(own, 100*ms, vrt.Elapsed())
			for a, ok := range knownA {
				if ok {
					l.final(a)
					if f := l.frames[a]; f[len(f)-1].at < vrt.Elapsed()-350*ms {
						fail("%v: no longer sent", a)
					}
				} else if f := l.frames[a]; len(f) > 0 && f[len(f)-1].at > vrt.Elapsed()-400*ms {
					fail("%v: still sent after it was withdrawn", a)
				}
			}
		}})

	scn(&Scenario{Prop: "C18", Name: "c18-race", D: [2]int{2, 3},
		What: "1 or 2 writers set 2 universes twice each while a frame is due and a poll reply (none, same ports, an added port, swapped ports, another node) arrives; schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			l := newLedger(w)
			c := startCtl(10)
			vrt.Sleep(33 * ms)
			base := outNode(50, 1, 2)
			reply(w, base)
			vrt.Quiesce()
			writers := 1 + choose(2, "writers")
			rep := choose(5, "reply")
			other := outNode(51, 9)
			vrt.Sleep(pick("phase", 67*ms, 30*ms))
			vrt.Unfreeze()
			var gs []*vrt.G
			for x := 1; x <= writers; x++ {
				x := x
				gs = append(gs, vrt.GoSys(fmt.Sprint("writer ", x), func() {
					l.set(c, x, uni(1), false, false)
					l.set(c, x, uni(2), false, false)
					l.set(c, x, uni(1), false, false)
					if rep == 2 {
						l.set(c, x, uni(3), true, false)
					}
				}))
			}
			switch rep {
			case 1:
				reply(w, base)
			case 2:
				reply(w, outNode(50, 1, 2, 3))
			case 3:
				reply(w, outNode(50, 2, 1))
			case 4:
				reply(w, other)
			}
			for _, g := range gs {
				vrt.Join(g)
			}
			vrt.Quiesce()
			if rep == 2 {
				l.set(c, 3, uni(3), false, false)
			}
			vrt.Sleep(110 * ms)
			l.set(c, 3, uni(2), false, false)
			vrt.Freeze()
			vrt.Sleep(400 * ms)
			vrt.Quiesce()
			l.check(owners(outNode(50, 1, 2, 3), other), 100*ms, vrt.Elapsed())
			l.final(uni(1))
			l.final(uni(2))
		}})

	scn(&Scenario{Prop: "C18", Name: "c18-early-timers", D: [2]int{2, 3}, Starve: [2]int{1, 1}, Early: true,
		What: "a writer races with frames and replies while timers also fire when goroutines are runnable (starved goroutines): order and wholeness only",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			l := newLedger(w)
			c := startCtl(10)
			vrt.Sleep(33 * ms)
			base := outNode(50, 1, 2)
			reply(w, base)
			vrt.Quiesce()
			rep := choose(3, "reply")
			vrt.Sleep(67 * ms)
			vrt.Unfreeze()
			g := vrt.GoSys("writer", func() {
				l.set(c, 1, uni(1), false, false)
				l.set(c, 1, uni(2), false, false)
				l.set(c, 1, uni(1), false, false)
			})
			switch rep {
			case 1:
				reply(w, base)
			case 2:
				reply(w, outNode(50, 2, 3, 1))
			}
			vrt.Join(g)
			vrt.Quiesce()
			vrt.Freeze()
			vrt.Sleep(800 * ms)
			vrt.Quiesce()
			l.check(owners(outNode(50, 1, 2, 3)), 0, 0)
			l.final(uni(1))
			l.final(uni(2))
		}})

	scn(&Scenario{Prop: "C18", Name: "c18-many", D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin, vrt.NewestFirst},
		What: "4 nodes with 4 outputs each in different nets and sub-nets; all universes, one, or every second set in each of 4 rounds, by 1 or 3 goroutines, at frame rates 4, 10, 40",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			fps := pick("fps", 4, 10, 40)
			c := startCtl(fps)
			which, ng := choose(3, "set"), pick("goroutines", 1, 3)
			vrt.Sleep(7 * ms)
			var as []announcement
			for i := 0; i < 4; i++ {
				a := outNode(50+i, byte(i), byte(i+4), byte(i+8), byte(i+12)).at([]byte{0, 1, 127, 127}[i], []byte{0, 15, 0, 9}[i])
				as = append(as, a)
				reply(w, a)
			}
			vrt.Quiesce()
			own := owners(as...)
			for r := 0; r < 4; r++ {
				var gs []*vrt.G
				for x := 0; x < ng; x++ {
					x := x
					gs = append(gs, vrt.GoSys("writer", func() {
						k := 0
						for _, a := range as {
							for _, u := range a.addrs() {
								k++
								if k%ng != x || which == 1 && k != 7 || which == 2 && k%2 == 0 {
									continue
								}
								l.set(c, x, u, false, false)
							}
						}
					}))
				}
				for _, g := range gs {
					vrt.Join(g)
				}
				vrt.Sleep(pick("gap", 11*ms, 110*ms, 260*ms))
				if r == 1 {
					reply(w, as[2])
				}
			}
			vrt.Sleep(600 * ms)
			vrt.Quiesce()
			l.check(own, sec/time.Duration(fps), vrt.Elapsed())
			for a := range own {
				l.final(a)
			}
		}})
}

// ---- C19 ----

// rhythm checks the frames of an address that was announced at from.
func rhythm(l *ledger, a artnet.Address, interval, from, end time.Duration) {
	fs := l.frames[a]
	last := from
	for i, f := range fs {
		gap := f.at - last
		if i == 0 {
			if gap > interval {
				fail("%v: first frame %v after discovery, frame interval %v", a, gap, interval)
			}
			if !bytes.Equal(f.d[18:], zeros[:]) && !l.untracked && len(l.sets[a]) == 0 {
				fail("%v: the first frame is not black", a)
			}
		} else {
			if gap > 250*ms+interval {
				fail("%v: %v between frames at %v (interval %v)", a, gap, f.at, interval)
			}
			if gap < interval {
				fail("%v: only %v between frames at %v (interval %v)", a, gap, f.at, interval)
			}
		}
		last = f.at
	}
	if len(fs) == 0 && end-from > interval || end-last > 250*ms+interval {
		fail("%v: no frame in the %v before %v (interval %v, %d frames in all)", a, end-last, end, interval, len(fs))
	}
}

func init() {
	rates := []int{1, 2, 3, 4, 7, 10, 25, 30, 40, 44, 60, 100, 1000}
	scn(&Scenario{Prop: "C19", Name: "c19-rates", D: [2]int{0, 0}, MaxSteps: 2000000,
		What: "13 frame rates from 1 to 1000 x 5 update patterns (never, once, every 3 ms, every 90 ms, bursts) x 4 discovery moments x 2 nodes with 3 universes, up to 5 s",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			fps := pick("fps", rates...)
			pat := choose(5, "updates")
			phase := pick("discovery", 1*ms, 251*ms, 499*ms, 1100*ms)
			interval := sec / time.Duration(fps)
			dur := 2*sec + 1*ms
			if fps < 10 {
				dur = 5*sec + 77*ms
			}
			c := startCtl(fps)
			vrt.Sleep(phase)
			as := []announcement{outNode(50, 1, 2), outNode(51, 3)}
			for _, a := range as {
				reply(w, a)
			}
			vrt.Quiesce()
			start := vrt.Elapsed()
			period := []time.Duration{0, 0, 3 * ms, 90 * ms, 400 * ms}[pat]
			if pat == 1 {
				vrt.Sleep(interval + 20*ms)
				l.set(c, 1, uni(2), false, false)
			}
			end := start + dur
			if period > 0 {
				for t := start + period; t < end; t += period {
					vrt.Sleep(t - vrt.Elapsed())
					n := 1
					if pat == 4 {
						n = 5
					}
					for k := 0; k < n; k++ {
						l.set(c, 1, uni(1), false, false)
						l.set(c, 1, uni(3), false, false)
					}
				}
			}
			vrt.Sleep(end - vrt.Elapsed())
			vrt.Quiesce()
			for a := range owners(as...) {
				rhythm(l, a, interval, start, end)
			}
		}})

	scn(&Scenario{Prop: "C19", Name: "c19-refused", D: [2]int{0, 0},
		What: "MaxFPS with 8 values that are not positive or above 1e9, given to NewController or SetOption, before or after a valid one; the controller keeps its rate",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			bad := pick("value", 0, -1, -5, -1000, -1000000000, -1<<62, 1000000001, 1<<62)
			how := choose(4, "given")
			fps := 1000
			var c *artnet.Controller
			switch how {
			case 0:
				c = artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(bad))
			case 1:
				c = artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(5), artnet.MaxFPS(bad))
				fps = 5
			case 2:
				c = artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(bad), artnet.MaxFPS(20))
				fps = 20
			case 3:
				c = artnet.NewController("ctl", ownIP, quiet())
				if err := c.SetOption(artnet.MaxFPS(8)); err != nil {
					fail("MaxFPS(8) refused: %v", err)
				}
				if c.SetOption(artnet.MaxFPS(bad)) == nil {
					fail("MaxFPS(%d) is not refused", bad)
				}
				fps = 8
			}
			if err := launch(c); err != nil {
				fail("Start: %v", err)
			}
			vrt.Sleep(1 * ms)
			reply(w, outNode(50, 1))
			vrt.Quiesce()
			for i := 0; i < 40; i++ {
				vrt.Sleep(17 * ms)
				l.set(c, 1, uni(1), false, false)
			}
			vrt.Sleep(500 * ms)
			vrt.Quiesce()
			rhythm(l, uni(1), sec/time.Duration(fps), 1*ms, vrt.Elapsed())
			mustReturn("Stop", 5*sec, c.Stop)
		}})

	scn(&Scenario{Prop: "C19", Name: "c19-extreme", NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "frame rates 100000, 1e6 and 1e9 for 2000 frames",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			fps := pick("fps", 100000, 1000000, 1000000000)
			iv := sec / time.Duration(fps)
			c := startCtl(fps)
			vrt.Sleep(iv * 10)
			reply(w, outNode(50, 1))
			vrt.Quiesce()
			for i := 0; i < 100; i++ {
				vrt.Sleep(iv * 20)
				l.set(c, 1, uni(1), false, false)
			}
			vrt.Quiesce()
			rhythm(l, uni(1), iv, iv*10, vrt.Elapsed())
		}})

	scn(&Scenario{Prop: "C19", Name: "c19-schedules", D: [2]int{1, 2},
		What: "sets, replies and polls at frame instants with 2 nodes at 4 and 10 frames per second for 0.9 s, schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			fps := pick("fps", 4, 10)
			iv := sec / time.Duration(fps)
			c := startCtl(fps)
			load := choose(3, "load")
			start := pick("discovery", iv/2, iv)
			vrt.Sleep(start)
			as := []announcement{outNode(50, 1), outNode(51, 2)}
			for _, a := range as {
				reply(w, a)
			}
			for t := 2 * iv; t < 900*ms; t += iv {
				vrt.Sleep(t - vrt.Elapsed())
				if load >= 1 {
					g := vrt.GoSys("writer", func() { l.set(c, 1, uni(1), true, false); l.set(c, 1, uni(1), true, false) })
					if load == 2 {
						reply(w, as[0])
						w.Inject(host(9), poll())
					}
					vrt.Join(g)
				}
				vrt.Quiesce()
			}
			vrt.Sleep(iv / 3)
			vrt.Quiesce()
			for a := range owners(as...) {
				rhythm(l, a, iv, start, vrt.Elapsed())
			}
		}})

	scn(&Scenario{Prop: "C19", Name: "c19-long", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 2000000,
		What: "60 s with 16 universes on 4 nodes re-announcing every 3 s, 5 update patterns, 3 frame rates",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			l.untracked = true
			fps := pick("fps", 5, 20, 40)
			pat := choose(5, "updates")
			c := startCtl(fps)
			vrt.Sleep(10 * ms)
			var as []announcement
			for i := 0; i < 4; i++ {
				as = append(as, outNode(50+i, 0, 1, 2, 3).at(byte(i), byte(i)))
			}
			start := vrt.Elapsed()
			var own map[artnet.Address]net.IP
			for r := 0; r < 20; r++ {
				for _, a := range as {
					reply(w, a)
				}
				vrt.Quiesce()
				own = owners(as...)
				for k := 0; k < 10; k++ {
					switch pat {
					case 1:
						c.SendDMXToAddress(payload(as[1].addrs()[2], 1, r), as[1].addrs()[2])
					case 2:
						for a := range own {
							c.SendDMXToAddress(payload(a, 1, k), a)
						}
					case 3:
						for i := 0; i < 3; i++ {
							c.SendDMXToAddress(payload(as[i].addrs()[i], 1, k), as[i].addrs()[i])
						}
					}
					gap := 300 * ms
					if pat == 4 && k == 3 {
						reply(w, as[2])
					}
					vrt.Sleep(gap)
				}
			}
			vrt.Quiesce()
			for a := range own {
				rhythm(l, a, sec/time.Duration(fps), start, vrt.Elapsed())
			}
		}})
}

// ---- C20 ----

// numbering checks the sequence numbers of the packets to each node.
func numbering(w *vnet.World) map[string]int {
	next := map[string]byte{}
	n := map[string]int{}
	for _, d := range sentOf(w, 0x5000) {
		ip := d.To.IP.String()
		want := next[ip] + 1
		if want == 0 {
			want = 1
		}
		if d.Data[12] != want {
			fail("packet number %d to %s has sequence number %d, want %d", n[ip]+1, ip, d.Data[12], want)
		}
		next[ip] = want
		n[ip]++
	}
	return n
}

func init() {
	scn(&Scenario{Prop: "C20", Name: "c20-long-runs", D: [2]int{0, 0}, MaxSteps: 1000000,
		What: "more than 600 packets per node: 1..3 nodes with 1..4 universes, updates none, of one or of all universes, re-announcements with the same or with changed ports",
		Run: func() {
			w := vnet.NewWorld()
			nodes, unis := 1+choose(3, "nodes"), 1+choose(4, "universes")
			pat := choose(3, "updates")
			ann := choose(3, "re-announcements")
			c := startCtl(100)
			vrt.Sleep(3 * ms)
			mk := func(r int) (as []announcement) {
				for i := 0; i < nodes; i++ {
					var us []byte
					for u := 0; u < unis; u++ {
						us = append(us, byte(i*4+u))
					}
					if ann == 2 && r%2 == 1 {
						us = append(us[1:], byte(12+i))
					}
					as = append(as, outNode(50+i, us...))
				}
				return
			}
			k := 0
			for r := 0; ; r++ {
				as := mk(r)
				if ann > 0 || r%10 == 0 {
					for _, a := range as {
						reply(w, a)
					}
				}
				vrt.Quiesce()
				for i := 0; i < 20; i++ {
					if pat == 1 {
						c.SendDMXToAddress([512]byte{byte(i)}, as[0].addrs()[0])
					} else if pat == 2 {
						for _, a := range as {
							for _, x := range a.addrs() {
								c.SendDMXToAddress([512]byte{byte(i), byte(k)}, x)
							}
						}
					}
					vrt.Sleep(25 * ms)
					k++
				}
				n := numbering(w)
				done := true
				for i := 0; i < nodes; i++ {
					if n[ip4(50+i).String()] < 600 {
						done = false
					}
				}
				if done || pat < 2 && r > 2 && len(w.Sent) > 700 {
					return
				}
				if r > 400 {
					fail("too few packets were sent: %v", n)
				}
			}
		}})

	scn(&Scenario{Prop: "C20", Name: "c20-wrap", D: [2]int{1, 2},
		What: "packets around the wrap from 255 to 1 of one or two nodes with 4 universes, with writers and replies at frame instants, schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			nodes := 1 + choose(2, "nodes")
			load := choose(3, "load")
			c := startCtl(50)
			vrt.Sleep(3 * ms)
			as := []announcement{outNode(50, 0, 1, 2, 3), outNode(51, 4, 5)}[:nodes]
			all := func() {
				for _, a := range as {
					for _, x := range a.addrs() {
						c.SendDMXToAddress([512]byte{9}, x)
					}
				}
			}
			for _, a := range as {
				reply(w, a)
			}
			for i := 0; i < 62; i++ {
				vrt.Sleep(20 * ms)
				all()
			}
			vrt.Sleep(17 * ms)
			vrt.Unfreeze()
			for i := 0; i < 4; i++ {
				if i < 2 {
					switch load {
					case 1:
						reply(w, as[0])
					case 2:
						reply(w, outNode(50, 0, 1, 3))
						vrt.Quiesce()
						reply(w, as[0])
					}
				}
				all()
				vrt.Sleep(20 * ms)
			}
			vrt.Quiesce()
			if n := numbering(w)["2.0.0.50"]; n < 257 {
				fail("only %d packets were sent", n)
			}
		}})

	scn(&Scenario{Prop: "C20", Name: "c20-start", D: [2]int{2, 3}, Early: true,
		What: "the first frames of 2 nodes with writers and replies, timers firing early, schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(10)
			vrt.Sleep(50 * ms)
			as := []announcement{outNode(50, 1, 2), outNode(51, 3)}
			for _, a := range as {
				reply(w, a)
			}
			g := vrt.GoSys("writer", func() {
				for i := 1; i <= 3; i++ {
					c.SendDMXToAddress([512]byte{9}, uni(byte(i)))
				}
			})
			if choose(2, "again") == 1 {
				reply(w, as[0])
			}
			vrt.Sleep(55 * ms)
			vrt.Join(g)
			vrt.Quiesce()
			vrt.Freeze()
			vrt.Sleep(400 * ms)
			vrt.Quiesce()
			numbering(w)
		}})
}

// ---- C21 ----

func init() {
	stopAtTick := func(us []int, sts []int, pends []int) func() {
		return func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			c := startCtl(10)
			vrt.Sleep(50 * ms)
			unis := pick("universes", us...)
			for i := 0; i*4 < unis; i++ {
				var us []byte
				for u := 0; u < 4 && i*4+u < unis; u++ {
					us = append(us, byte(i*4+u))
				}
				reply(w, outNode(50+i, us...))
			}
			vrt.Quiesce()
			at := pick("stop at", 60*ms, 100*ms, 3000*ms)
			vrt.Sleep(at - 10*ms - vrt.Elapsed())
			for u := 0; u < unis; u++ {
				c.SendDMXToAddress([512]byte{1}, uni(byte(u)))
			}
			pend := pick("pending", pends...)
			st := pick("steps", sts...)
			vrt.Sleep(10 * ms)
			switch pend {
			case 1:
				traffic(w, 3, 2)
			case 2:
				traffic(w, 3, 15)
			case 3:
				traffic(w, 0, 2)
			case 4:
				traffic(w, 2, 15)
			}
			vrt.Unfreeze()
			steps(st)
			mustReturn("Stop", 5*sec, c.Stop)
			stopped(w, true)
			mustReturn("SendDMXToAddress after Stop", 1*sec, func() { c.SendDMXToAddress([512]byte{2}, uni(0)) })
			vrt.Sleep(1 * sec)
			noGoroutines("after Stop")
		}
	}
	scn(&Scenario{Prop: "C21", Name: "c21-stop-at-tick", D: [2]int{0, 1},
		What: "1, 4, 9, 12 or 16 busy universes, 0, 2 or 15 poll replies or polls pending, Stop before, at or after a frame or poll instant, or 0..40 scheduling steps after it",
		Run:  stopAtTick([]int{1, 4, 9, 12, 16}, []int{0, 1, 3, 7, 15, 40}, []int{0, 1, 2, 3, 4})})
	scn(&Scenario{Prop: "C21", Name: "c21-stop-at-tick-schedules", D: [2]int{1, 2},
		What: "the same with 2 or 12 universes, 0 or 15 poll replies pending, Stop at once or 7 steps after the instant, schedules within the bound",
		Run:  stopAtTick([]int{2, 12}, []int{0, 7}, []int{0, 2})})

	scn(&Scenario{Prop: "C21", Name: "c21-writers", D: [2]int{1, 2},
		What: "2 writers set 6 or 14 universes while Stop is called at a frame instant, after it, or off it; twice or once",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			c := startCtl(10)
			vrt.Sleep(50 * ms)
			unis := pick("universes", 6, 14)
			for i := 0; i*4 < unis; i++ {
				reply(w, outNode(50+i, byte(i*4), byte(i*4+1), byte(i*4+2), byte(i*4+3)))
			}
			vrt.Quiesce()
			for u := 0; u < unis; u++ {
				c.SendDMXToAddress([512]byte{1}, uni(byte(u)))
			}
			twice := choose(2, "stops")
			vrt.Sleep(pick("at", 50*ms, 20*ms))
			vrt.Unfreeze()
			var gs []*vrt.G
			for x := 0; x < 2; x++ {
				x := x
				gs = append(gs, vrt.GoSys("writer", func() {
					for u := x; u < unis; u += 2 {
						c.SendDMXToAddress([512]byte{2}, uni(byte(u)))
					}
				}))
			}
			var g2 *vrt.G
			if twice == 1 {
				g2 = vrt.GoSys("second Stop", c.Stop)
			}
			mustReturn("Stop", 5*sec, c.Stop)
			mustReturn("the writers and the second Stop", 1*sec, func() {
				vrt.Join(gs[0])
				vrt.Join(gs[1])
				if g2 != nil {
					vrt.Join(g2)
				}
			})
			stopped(w, true)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C21", Name: "c21-early-timers", D: [2]int{1, 2}, Early: true,
		What: "Stop of a controller with 3 or 12 universes, write errors or not, timers firing while goroutines are runnable",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			c := startCtl(10)
			vrt.Sleep(50 * ms)
			unis := pick("universes", 3, 12)
			for i := 0; i*3 < unis; i++ {
				reply(w, outNode(50+i, byte(i*3), byte(i*3+1), byte(i*3+2)))
			}
			vrt.Quiesce()
			if choose(2, "write errors") == 1 {
				w.WriteErr = func(*vnet.Datagram) error { return errNet }
			}
			for u := 0; u < unis; u++ {
				c.SendDMXToAddress([512]byte{1}, uni(byte(u)))
			}
			vrt.Sleep(pick("at", 50*ms, 2950*ms))
			vrt.Unfreeze()
			g := vrt.GoSys("writer", func() { c.SendDMXToAddress([512]byte{2}, uni(1)) })
			mustReturn("Stop", 5*sec, c.Stop)
			mustReturn("the writer", 1*sec, func() { vrt.Join(g) })
			vrt.Freeze()
			stopped(w, true)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C21", Name: "c21-at-start", D: [2]int{1, 2},
		What: "Stop 0..60 scheduling steps after Start, with 0, 1 or 20 datagrams pending; SendDMXToAddress before Start and after Stop returns",
		Run: func() {
			w := vnet.NewWorld()
			c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(10))
			c.SendDMXToAddress([512]byte{1}, uni(1))
			if err := launch(c); err != nil {
				fail("Start: %v", err)
			}
			kind := pick("kind", 0, 3)
			traffic(w, kind, pick("pending", 0, 1, 20))
			steps(pick("steps", 0, 1, 2, 4, 8, 15, 30, 60))
			mustReturn("Stop", 5*sec, c.Stop)
			stopped(w, true)
			c.SendDMXToAddress([512]byte{1}, uni(1))
			noGoroutines("after Stop")
		}})
}
