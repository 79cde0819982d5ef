package main

import (
	"bytes"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// Histories long enough for a 16-bit count of anything to wrap, each under one
// schedule.

const many = 1<<16 + 300

func init() {
	long := func(s *Scenario) {
		s.NoStarve, s.NoRestart, s.NoLinger = true, true, true
		s.D = [2]int{0, 0}
		s.Policies = []int{vrt.OldestFirst}
		s.MaxSteps = 20000000
		scn(s)
	}

	long(&Scenario{Prop: "C10", Name: "c10-very-long",
		What: "65836 polls one by one to a node or a controller; each is answered once",
		Run: func() {
			w := vnet.NewWorld()
			var want []byte
			isCtl := choose(2, "object") == 1
			if isCtl {
				startCtl(1)
				want = expectReply(ctlConfig)
			} else {
				want = expectReply(startNode(code.StNode, 1, quiet()).Config)
			}
			vrt.Quiesce()
			d := poll()
			for i := 0; i < many; i++ {
				w.Sent = w.Sent[:0]
				w.Inject(host(5+i%200), d)
				vrt.Quiesce()
				checkReplies(w, 0, 1, want, defaultBroadcast, nil)
			}
		}})

	long(&Scenario{Prop: "C11", Name: "c11-very-long",
		What: "65836 packets of one kind (ArtDmx or ArtTrigger) one by one; each reaches the callback once and as it was",
		Run: func() {
			w := vnet.NewWorld()
			k := pick("kind", kDMX, ref.ByName("ArtTrigger"))
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			var got []packet.ArtNetPacket
			n.RegisterCallback(opc(k), func(p packet.ArtNetPacket) { got = append(got, p) })
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			var ds [][]byte
			for i := 0; i < 64; i++ {
				ds = append(ds, filled(k, i))
			}
			for i := 0; i < many; i++ {
				got = got[:0]
				d := ds[i%len(ds)]
				w.Inject(host(9), d)
				vrt.Quiesce()
				if len(got) != 1 {
					fail("packet number %d: %d calls of the callback", i+1, len(got))
				}
				if i%16 == 0 || i > 1<<16-300 {
					if m := ref.Mismatch(got[0], k, d); m != "" {
						fail("packet number %d: %s", i+1, m)
					}
				}
			}
		}})

	long(&Scenario{Prop: "C12", Name: "c12-very-long",
		What: "65836 of one fault (each of 13), or failing writes, at a node or a controller; then a poll is answered and a packet delivered, a node learned",
		Run: func() {
			w := vnet.NewWorld()
			f := choose(faults+1, "fault")
			if choose(2, "object") == 1 {
				c := startCtl(1)
				if f == faults {
					w.WriteErr = func(*vnet.Datagram) error { return errNet }
				}
				for i := 0; i < many; i++ {
					w.Sent, w.Failed = w.Sent[:0], w.Failed[:0]
					if f == faults {
						w.Inject(host(3), poll())
					} else {
						fault(w, f)
					}
					vrt.Quiesce()
				}
				w.WriteErr = nil
				vrt.Quiesce()
				mark := w.Mark()
				w.Inject(host(9), poll())
				reply(w, outNode(50, 1))
				vrt.Quiesce()
				checkReplies(w, mark, 1, expectReply(ctlConfig), defaultBroadcast, func(d *vnet.Datagram) bool { return op(d.Data) == 0x5000 })
				if known(c, ip4(50)) == nil {
					fail("the node is not known after the faults")
				}
				return
			}
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			n.RegisterCallback(code.OpDMX, c.cb("dmx"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			if f == faults {
				w.WriteErr = func(*vnet.Datagram) error { return errNet }
			}
			for i := 0; i < many; i++ {
				w.Sent, w.Failed = w.Sent[:0], w.Failed[:0]
				if f == faults {
					w.Inject(host(3), poll())
				} else {
					fault(w, f)
				}
				vrt.Quiesce()
			}
			w.WriteErr = nil
			mark := w.Mark()
			d := filled(kDMX, 5)
			w.Inject(host(9), poll())
			w.Inject(host(9), d)
			vrt.Quiesce()
			checkReplies(w, mark, 1, expectReply(n.Config), defaultBroadcast, nil)
			c.expect("dmx", d)
		}})

	long(&Scenario{Prop: "C14", Name: "c14-very-long",
		What: "a node or a controller is started and stopped 3000 times (nothing is left 4 s later); it works after every start and is silent after every stop",
		Run: func() {
			w := vnet.NewWorld()
			var s starter
			if choose(2, "object") == 1 {
				s = artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(1))
			} else {
				s = artnet.NewNode("a node", code.StNode, ownIP, quiet())
			}
			for i := 0; i < 3000; i++ {
				w.Sent, w.Failed, w.Socks = w.Sent[:0], w.Failed[:0], w.Socks[:0]
				if err := s.Start(); err != nil {
					fail("Start number %d: %v", i+1, err)
				}
				alive(w, true, "after Start")
				mustReturn("Stop", 5*sec, s.Stop)
				alive(w, false, "after Stop")
				vrt.Sleep(4 * sec)
				noGoroutines("after Stop")
			}
		}})

	long(&Scenario{Prop: "C15", Name: "c15-very-long",
		What: "65836 polls (more than 54 hours) without a node",
		Run: func() {
			w := vnet.NewWorld()
			startCtl(1)
			for i := 0; i < many; i++ {
				vrt.Sleep(3 * sec)
			}
			vrt.Sleep(100 * ms)
			vrt.Quiesce()
			cadence(w, 0, vrt.Elapsed(), defaultBroadcast, 0)
		}})

	long(&Scenario{Prop: "C17", Name: "c17-very-long",
		What: "a node (an input and an output at 1 frame a second, or inputs) that replies every 2.9 s (65836 times) or 6.9 s (10000 times) stays known; silent for 10 s it is gone; back, it is known",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			a := announcement{ip: ip4(50), name: "inputs", ports: []byte{0x40, 0x40}, swin: []byte{1, 2}, swout: []byte{0, 0}}
			gap := pick("gap", 2900*ms, 6900*ms)
			if choose(2, "ports") == 1 {
				a.ports[0] = 0xc0
				if gap = 2900 * ms; len(a.addrs()) != 1 {
					return
				}
			}
			reply(w, a)
			vrt.Quiesce()
			first := known(c, a.ip)
			times := many
			if gap > 3*sec {
				times = 10000
			}
			for i := 0; i < times; i++ {
				vrt.Sleep(gap)
				w.Sent = w.Sent[:0]
				if known(c, a.ip) != first || first == nil || len(c.InputAddress) != 2 {
					fail("the node is not known any more %v after reply number %d", gap, i+1)
				}
				reply(w, a)
				vrt.Quiesce()
			}
			vrt.Sleep(10*sec + 1*ms)
			vrt.Quiesce()
			if known(c, a.ip) != nil || len(c.InputAddress) != 0 {
				fail("the node is still known 10 s after its last reply")
			}
			reply(w, a)
			vrt.Quiesce()
			if known(c, a.ip) == nil || len(c.InputAddress) != 2 {
				fail("the node is not known after its return")
			}
		}})

	// 1000 frames a second; a new value before each, or a new value now and then.
	run := func(c *artnet.Controller, w *vnet.World, a announcement, every int, frame func(i, set int, ds []*vnet.Datagram)) {
		x := a.addrs()[0]
		reply(w, a)
		vrt.Sleep(5*ms + 500*time.Microsecond)
		set := 0
		for i := 1; i <= many; i++ {
			w.Sent = w.Sent[:0]
			if i%2900 == 0 {
				reply(w, a)
				vrt.Quiesce()
			}
			if i%every == 0 {
				set = i
				c.SendDMXToAddress(payload(x, 1, set), x)
			}
			vrt.Sleep(1 * ms)
			vrt.Quiesce()
			var ds []*vnet.Datagram
			for _, d := range w.Sent {
				if op(d.Data) == 0x5000 {
					ds = append(ds, d)
				}
			}
			frame(i, set, ds)
		}
	}

	long(&Scenario{Prop: "C18", Name: "c18-very-long",
		What: "65836 new values of one universe, one each millisecond at 1000 frames a second; each is sent",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1000)
			a := outNode(50, 1)
			run(c, w, a, 1, func(i, set int, ds []*vnet.Datagram) {
				p := payload(a.addrs()[0], 1, set)
				if len(ds) == 0 {
					fail("no ArtDmx packet in the millisecond after value number %d", i)
				}
				if !bytes.Equal(ds[len(ds)-1].Data[18:], p[:]) {
					fail("value number %d is not sent within 1 ms", i)
				}
			})
		}})

	long(&Scenario{Prop: "C16", Name: "c16-very-long",
		What: "65836 replies of two nodes in turn, with ports that change each time; the tables agree with the last replies (checked every 97 replies and around the 65536th)",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			for i := 0; i < many; i++ {
				w.Sent = w.Sent[:0]
				k := i % 7
				a := outNode(50+i%2, byte(k), byte(k+1)).at(byte(i%2), byte(i%3))
				reply(w, a)
				b.learn(a)
				vrt.Quiesce()
				if i%97 == 0 || i > 1<<16-300 {
					b.check(c, "in the middle")
				}
			}
			b.check(c, "in the end")
		}})

	long(&Scenario{Prop: "C19", Name: "c19-very-long",
		What: "more than 65536 frames of one universe: at 1000 frames a second with a new value each millisecond (66 s), or at 4 or 20 frames a second with no or few new values (hours)",
		Run: func() {
			w := vnet.NewWorld()
			how := choose(4, "pattern")
			fps := []int{1000, 4, 20, 4}[how]
			iv := sec / time.Duration(fps)
			c := startCtl(fps)
			a := outNode(50, 1)
			var last time.Duration
			frames := 0
			look := func(ds []*vnet.Datagram) {
				for _, d := range ds {
					if op(d.Data) != 0x5000 {
						continue
					}
					frames++
					gap := d.At - last
					if frames > 1 && (gap < iv || gap > iv+250*ms) {
						fail("%v between the frames number %d and %d (interval %v)", gap, frames-1, frames, iv)
					}
					last = d.At
				}
				if vrt.Elapsed()-last > 250*ms+iv {
					fail("no frame in the %v after frame number %d (interval %v)", vrt.Elapsed()-last, frames, iv)
				}
			}
			if how == 0 {
				run(c, w, a, 1, func(i, set int, ds []*vnet.Datagram) { look(ds) })
				return
			}
			for i := 0; frames < many; i++ {
				reply(w, a)
				vrt.Quiesce()
				if how == 3 && i%5 == 0 {
					c.SendDMXToAddress(payload(a.addrs()[0], 1, i), a.addrs()[0])
				}
				vrt.Sleep(2750*ms + 1*ms)
				vrt.Quiesce()
				look(w.Sent)
				w.Sent = w.Sent[:0]
			}
		}})

	long(&Scenario{Prop: "C20", Name: "c20-very-long",
		What: "more than 65536 packets to a node with one, or 4 universes, at 1000 frames a second, all or one updated each millisecond; the numbers go on from 1 to 255",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1000)
			a := outNode(50, 1)
			if choose(2, "universes") == 1 {
				a = outNode(50, 1, 2, 3, 4)
			}
			var last byte
			n := 0
			w.OnSend = func(d *vnet.Datagram) {
				if op(d.Data) != 0x5000 {
					return
				}
				n++
				want := last + 1
				if want == 0 {
					want = 1
				}
				if d.Data[12] != want {
					fail("packet number %d has sequence number %d, want %d", n, d.Data[12], want)
				}
				last = want
			}
			run(c, w, a, 1, func(i, set int, ds []*vnet.Datagram) {
				for _, x := range a.addrs()[1:] {
					if i%4 == 0 {
						c.SendDMXToAddress(payload(x, 1, i), x)
					}
				}
			})
			if n < 1<<16 {
				fail("harness: only %d packets", n)
			}
		}})

	long(&Scenario{Prop: "C24", Name: "c24-very-long",
		What: "a controller (4 frames a second) and a node of this library run together for 20 hours (24000 polls), new values every 3 s; the node stays known and gets every value",
		Run: func() {
			w := routed()
			p := newPeer(w, 50, addrRun(1, 2, 1), 1)
			p.start()
			c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(4))
			w.HostIP = ownIP
			if err := c.Start(); err != nil {
				fail("Start: %v", err)
			}
			vrt.Sleep(100 * ms)
			for i := 1; i <= 24000; i++ {
				knows(c, "in the middle", p)
				lightUp(c, i, 250*ms, p)
				vrt.Sleep(2749 * ms)
				vrt.Quiesce()
				w.Sent = w.Sent[:0]
			}
		}})
}
