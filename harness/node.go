package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"strings"
	"syscall"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// gate lets callbacks block until the harness opens it.
type gate struct {
	open bool
	h    uint64
	in   int
}

//go:norace
func (g *gate) Ready(*vrt.G) bool { return g.open }

//go:norace
func (g *gate) What() string { return "callback blocked by the harness" }

//go:norace
func (g *gate) wait() {
	g.in++
	vrt.Point(g)
	vrt.Touch(&g.h, 1)
}

//go:norace
func (g *gate) release() {
	g.open = true
	vrt.Touch(&g.h, 2)
}

// steps lets everything else run for n scheduling steps.
func steps(n int) {
	for i := 0; i < n; i++ {
		vrt.Gosched()
	}
}

// delivered is a packet that reached a callback.
type delivered struct {
	cb string
	p  packet.ArtNetPacket
}

// ---- C09 ----

func init() {
	scn(&Scenario{Prop: "C09", Name: "c09-port-configurations", D: [2]int{1, 2}, Policies: []int{vrt.OldestFirst, vrt.NewestFirst},
		What: "0..5 inputs x 0..5 outputs x index of a pair with different protocol types (or none) x 5 type patterns; rejected ones are corrected and started",
		Run: func() {
			w := vnet.NewWorld()
			in, out := choose(6, "inputs"), choose(6, "outputs")
			mis := -1
			m := in
			if out < m {
				m = out
			}
			if m > 4 {
				m = 4
			}
			if m > 0 {
				mis = choose(m+1, "mismatch") - 1
			}
			pat := choose(5, "types")
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			n.Config.BaseAddress = artnet.Address{Net: 1, SubUni: 0x30}
			typ := func(i int) code.PortType { return code.PortType([]int{0, 5, i % 6, 4 - i%5, 1}[pat]) }
			build := func(in, out, mis int) {
				n.Config.InputPorts, n.Config.OutputPorts = nil, nil
				for i := 0; i < in; i++ {
					t := typ(i)
					if i%2 == 1 {
						t |= 0x40
					}
					n.Config.InputPorts = append(n.Config.InputPorts, artnet.InputPort{Address: artnet.Address{Net: 1, SubUni: byte(0x31 + i)}, Type: t, Status: code.GoodInput(1 << i)})
				}
				for i := 0; i < out; i++ {
					t := typ(i)
					if i == mis {
						t = (t + 1) % 6
					}
					if i%2 == 0 {
						t |= 0x80
					}
					n.Config.OutputPorts = append(n.Config.OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: 1, SubUni: byte(0x3f - i)}, Type: t, Status: code.GoodOutput(0x80 >> i)})
				}
			}
			build(in, out, mis)
			ok := in <= 4 && out <= 4 && mis < 0
			err := n.Start()
			if (err == nil) != ok {
				fail("%d inputs, %d outputs, types differ at %d: Start returned %v", in, out, mis, err)
			}
			vrt.Quiesce()
			if !ok {
				if len(w.Socks) != 0 {
					fail("the rejected Start opened a socket")
				}
				vrt.Sleep(4 * sec)
				vrt.Quiesce()
				if len(w.Sent) != 0 {
					fail("the rejected node sent something")
				}
				noGoroutines("after a rejected Start")
				if in > 4 {
					in = 4
				}
				if out > 4 {
					out = 4
				}
				build(in, out, -1)
				if err := launch(n); err != nil {
					fail("Start of the corrected node: %v", err)
				}
			}
			w.Inject(host(9), poll())
			vrt.Quiesce()
			checkReplies(w, 0, 1, expectReply(n.Config), defaultBroadcast, nil)
			mustReturn("Stop", 5*sec, n.Stop)
		}})

	scn(&Scenario{Prop: "C09", Name: "c09-type-pairs", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "all pairs of the 6 documented protocol types x port index 0..3 x direction flags set or not in the configured types",
		Run: func() {
			w := vnet.NewWorld()
			a, b, idx, fl := choose(6, "input type"), choose(6, "output type"), choose(4, "index"), choose(4, "flags")
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			for i := 0; i <= idx; i++ {
				ti, to := code.PortType(0), code.PortType(0)
				if i == idx {
					ti, to = code.PortType(a|fl&1<<6), code.PortType(b|fl>>1<<7)
				}
				n.Config.InputPorts = append(n.Config.InputPorts, artnet.InputPort{Type: ti})
				n.Config.OutputPorts = append(n.Config.OutputPorts, artnet.OutputPort{Type: to})
			}
			err := n.Start()
			if (err == nil) != (a == b) {
				fail("port %d with input type %d and output type %d: Start returned %v", idx, a, b, err)
			}
			w.Inject(host(9), poll())
			vrt.Quiesce()
			if err != nil {
				if len(w.Socks) != 0 || len(w.Sent) != 0 {
					fail("the rejected node opened a socket or sent something")
				}
				return
			}
			checkReplies(w, 0, 1, expectReply(n.Config), defaultBroadcast, nil)
		}})
}

// ---- C11 ----

// collector records what callbacks get.
type collector struct{ got []delivered }

func (c *collector) cb(name string) artnet.NodeCallbackFn {
	return func(p packet.ArtNetPacket) {
		vrt.Note(uint64(len(c.got)) + 1)
		c.got = append(c.got, delivered{name, p})
	}
}

// expect demands that the callbacks got exactly these datagrams (in any order).
func (c *collector) expect(cb string, ds ...[]byte) {
	var mine []packet.ArtNetPacket
	for _, g := range c.got {
		if g.cb == cb {
			mine = append(mine, g.p)
		}
	}
	used := make([]bool, len(mine))
	for _, d := range ds {
		k := ref.ByOp(op(d))
		found := false
		why := ""
		for i, p := range mine {
			if used[i] {
				continue
			}
			if m := ref.Mismatch(p, k, d); m == "" {
				used[i], found = true, true
				break
			} else {
				why = m
			}
		}
		if !found {
			fail("callback %q did not get the packet %s (of %d delivered, %d expected; %s)\n%s", cb, describe(d), len(mine), len(ds), why, vrt.Dump())
		}
	}
	if len(mine) != len(ds) {
		fail("callback %q was called %d times, want %d", cb, len(mine), len(ds))
	}
}

func opc(k *ref.Kind) code.OpCode { return code.OpCode(k.Op) }

func init() {
	scn(&Scenario{Prop: "C11", Name: "c11-kinds", D: [2]int{1, 2},
		What: "every ordered pair of the 12 packet kinds x which of the two kinds have a callback, delivered back to back",
		Run: func() {
			w := vnet.NewWorld()
			a, b := ref.Kinds[choose(12, "first")], ref.Kinds[choose(12, "second")]
			reg := 1 + choose(3, "registered")
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			if reg&1 != 0 {
				n.RegisterCallback(opc(a), c.cb("a"))
			}
			if reg&2 != 0 {
				n.RegisterCallback(opc(b), c.cb("b"))
			}
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			da, db := filled(a, 1), filled(b, 2)
			w.Inject(host(9), da)
			w.Inject(host(8), db)
			vrt.Quiesce()
			var wa, wb [][]byte
			for i, d := range [][]byte{da, db} {
				k := a
				if i == 1 {
					k = b
				}
				switch {
				case reg&2 != 0 && k == b:
					wb = append(wb, d)
				case reg&1 != 0 && k == a:
					wa = append(wa, d)
				}
			}
			c.expect("a", wa...)
			c.expect("b", wb...)
			vrt.Sleep(5 * sec)
			vrt.Quiesce()
			c.expect("a", wa...)
			c.expect("b", wb...)
		}})

	scn(&Scenario{Prop: "C11", Name: "c11-registration", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "all sequences of 3 registrations and deregistrations of two callbacks for two opcodes before start, one while running, one after a stop, each followed by traffic",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			ks := []*ref.Kind{kDMX, kSync}
			cur := map[*ref.Kind]string{}
			oper := func(effect bool) {
				o := choose(6, "op")
				k := ks[o%2]
				switch o / 2 {
				case 0, 1:
					name := []string{"A", "B"}[o/2]
					n.RegisterCallback(opc(k), c.cb(name))
					if effect {
						cur[k] = name
					}
				case 2:
					n.DeregisterCallback(opc(k))
					if effect {
						delete(cur, k)
					}
				}
			}
			want := map[string][][]byte{}
			seed := 0
			traffic := func() {
				for _, k := range ks {
					seed++
					d := filled(k, seed)
					w.Inject(host(9), d)
					if cb := cur[k]; cb != "" {
						want[cb] = append(want[cb], d)
					}
				}
				vrt.Quiesce()
				c.expect("A", want["A"]...)
				c.expect("B", want["B"]...)
			}
			for i := 0; i < 3; i++ {
				oper(true)
			}
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			traffic()
			oper(false)
			traffic()
			n.Stop()
			vrt.Quiesce()
			oper(true)
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			traffic()
		}})

	scn(&Scenario{Prop: "C11", Name: "c11-failed-start", D: [2]int{1, 2},
		What: "registration after a Start that failed (bad ports, address taken) still counts",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			bad := choose(2, "failure")
			n.RegisterCallback(code.OpDMX, c.cb("old"))
			if bad == 0 {
				n.Config.InputPorts = make([]artnet.InputPort, 5)
			} else {
				w.BindErr = func(*net.UDPAddr) error { return sysErr("bind", syscall.EADDRINUSE) }
			}
			if n.Start() == nil {
				fail("Start succeeded")
			}
			vrt.Quiesce()
			n.Config.InputPorts, w.BindErr = nil, nil
			n.RegisterCallback(code.OpDMX, c.cb("new"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			d := filled(kDMX, 1)
			w.Inject(host(9), d)
			vrt.Quiesce()
			c.expect("old")
			c.expect("new", d)
		}})

	burst := func(sizes ...int) func() {
		return func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			kinds := []*ref.Kind{kDMX, ref.ByName("ArtTrigger"), kSync, ref.ByName("ArtTimeCode")}
			for _, k := range kinds {
				n.RegisterCallback(opc(k), c.cb(k.Name))
			}
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			size := pick("size", sizes...)
			mix := choose(3, "mix")
			want := map[string][][]byte{}
			for i := 0; i < size; i++ {
				k := kDMX
				switch mix {
				case 1:
					k = kinds[i%4]
				case 2:
					k = kinds[i/3%2]
				}
				d := filled(k, i+1)
				want[k.Name] = append(want[k.Name], d)
				w.Inject(host(9), d)
			}
			vrt.Quiesce()
			for _, k := range kinds {
				c.expect(k.Name, want[k.Name]...)
			}
		}
	}
	scn(&Scenario{Prop: "C11", Name: "c11-burst", Prune: true, D: [2]int{2, 3},
		What: "bursts of 2, 5, 15 and 40 packets of mixed kinds and lengths; contents compared when delivered and at the end (pruned)",
		Run:  burst(2, 5, 15, 40)})
	scn(&Scenario{Prop: "C11", Name: "c11-burst-small", D: [2]int{2, 2},
		What: "the same with bursts of 2 and 4",
		Run:  burst(2, 4)})

	scn(&Scenario{Prop: "C11", Name: "c11-ignored", D: [2]int{2, 3},
		What: "own packets and malformed ones between good ones are not passed on",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			n.RegisterCallback(code.OpDMX, c.cb("dmx"))
			n.RegisterCallback(code.OpPoll, c.cb("poll"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			good := filled(kDMX, 200)
			bad := stimuli()
			s := bad[choose(len(bad), "between")]
			w.Inject(host(9), good)
			w.Inject(s.from, s.data)
			w.Inject(net.UDPAddr{IP: ownIP, Port: 6454}, filled(kDMX, 7))
			odd := filled(kDMX, 9)
			odd[17]++
			w.Inject(host(9), odd)
			w.Inject(host(9), filled(kDMX, 201))
			vrt.Quiesce()
			want := [][]byte{good, filled(kDMX, 201)}
			var polls [][]byte
			if s.answer {
				polls = append(polls, s.data)
			}
			if s.name == "dmx" {
				want = append(want, s.data)
			}
			c.expect("dmx", want...)
			c.expect("poll", polls...)
		}})

	blocked := func(behind int, sizes ...int) func() {
		return func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			g := &gate{}
			inner := c.cb("trigger")
			n.RegisterCallback(code.OpTrigger, func(p packet.ArtNetPacket) {
				g.wait()
				inner(p)
			})
			n.RegisterCallback(code.OpDMX, c.cb("dmx"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			k := pick("blocked", sizes...)
			kt := ref.ByName("ArtTrigger")
			var tr, dm [][]byte
			for i := 0; i < k; i++ {
				d := filled(kt, i+1)
				tr = append(tr, d)
				w.Inject(host(9), d)
			}
			for i := 0; i < behind; i++ {
				d := filled(kDMX, i+1)
				dm = append(dm, d)
				w.Inject(host(9), d)
				w.Inject(host(7), poll())
			}
			vrt.Quiesce()
			if g.in != k {
				fail("%d callbacks called, want %d while none has returned\n%s", g.in, k, vrt.Dump())
			}
			c.expect("dmx", dm...)
			checkReplies(w, 0, behind, expectReply(n.Config), defaultBroadcast, nil)
			vrt.Sleep(20 * sec)
			d := filled(kDMX, 77)
			dm = append(dm, d)
			w.Inject(host(9), d)
			vrt.Quiesce()
			c.expect("dmx", dm...)
			g.release()
			vrt.Quiesce()
			c.expect("trigger", tr...)
			c.expect("dmx", dm...)
		}
	}
	scn(&Scenario{Prop: "C11", Name: "c11-blocked", Prune: true, D: [2]int{2, 3},
		What: "1, 3, 12 or 25 callbacks block for 20 s while 4 later packets and polls arrive (pruned)",
		Run:  blocked(4, 1, 3, 12, 25)})
	scn(&Scenario{Prop: "C11", Name: "c11-blocked-small", D: [2]int{2, 2},
		What: "1 or 2 callbacks block for 20 s while another packet and a poll arrive",
		Run:  blocked(1, 1, 2)})
}

// ---- C12 ----

var errWeird = errors.New("some other error")

// fault applies fault number f and returns its name.
func fault(w *vnet.World, f int) string {
	h := host(9)
	switch f {
	case 0:
		w.InjectErr(errRefused)
		return "read ECONNREFUSED"
	case 1:
		w.InjectErr(errDown)
		return "read ENETDOWN"
	case 2:
		w.InjectErr(errWeird)
		return "read other error"
	case 3:
		w.Inject(h, nil)
		return "empty"
	case 4:
		w.Inject(h, []byte("Art-Net\x00\x00\x20"))
		return "ten bytes"
	case 5:
		d := poll()
		d[0] = 'B'
		w.Inject(h, d)
		return "bad identifier"
	case 6:
		d := filled(kDMX, 1)
		d[16], d[17] = 0xff, 0xff
		w.Inject(h, d)
		return "dmx with length 65535"
	case 7:
		w.Inject(h, kReply.New()[:100])
		return "cut poll reply"
	case 8:
		d := kReply.New()
		d[200] = 99
		w.Inject(h, d)
		return "poll reply of unknown style"
	case 9:
		d := poll()
		d[8], d[9] = 0, 0x70
		w.Inject(h, append(d, make([]byte, 600)...))
		return "opcode without implementation"
	case 10:
		d := poll()
		d[11] = 1
		w.Inject(h, d)
		return "old version"
	case 11:
		w.Inject(net.UDPAddr{}, []byte{1, 2, 3})
		return "garbage without source address"
	case 12:
		big := make([]byte, 5000)
		copy(big, poll())
		big[9] = 0x99
		big[8] = 1
		w.Inject(h, big)
		return "oversized"
	}
	panic("fault")
}

const faults = 13

func init() {
	scn(&Scenario{Prop: "C12", Name: "c12-node-faults", D: [2]int{1, 2}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "every sequence of 2 of 13 read errors and malformed datagrams, back to back or apart, with the log formatted, then a poll, a packet for a callback and Stop",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, loud())
			c := &collector{}
			n.RegisterCallback(code.OpDMX, c.cb("dmx"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			apart := choose(2, "apart")
			for i := 0; i < 2; i++ {
				f := fault(w, choose(faults, "fault"))
				if vrt.Tracing() {
					vrt.Logf("fault: %s", f)
				}
				if apart == 1 {
					vrt.Quiesce()
				}
			}
			vrt.Quiesce()
			if len(w.Sent) != 0 {
				fail("something was sent in response to a fault: %s", describe(w.Sent[0].Data))
			}
			d := filled(kDMX, 5)
			w.Inject(host(9), poll())
			w.Inject(host(9), d)
			vrt.Quiesce()
			checkReplies(w, 0, 1, expectReply(n.Config), defaultBroadcast, nil)
			c.expect("dmx", d)
			mustReturn("Stop", 5*sec, n.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-node-storm", D: [2]int{1, 2},
		What: "40 of one fault (each of 13) mixed with polls",
		Run: func() {
			w := vnet.NewWorld()
			n := startNode(code.StNode, 1, quiet())
			f := choose(faults, "fault")
			for i := 0; i < 40; i++ {
				fault(w, f)
				if i%10 == 3 {
					w.Inject(host(3), poll())
				}
			}
			vrt.Quiesce()
			checkReplies(w, 0, 4, expectReply(n.Config), defaultBroadcast, nil)
			mustReturn("Stop", 5*sec, n.Stop)
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-node-write-errors", D: [2]int{1, 2},
		What: "every subset of 6 writes fails, polls apart or in a burst; the others are sent",
		Run: func() {
			w := vnet.NewWorld()
			n := startNode(code.StNode, 1, loud())
			mask := choose(64, "failing writes")
			apart := choose(2, "apart")
			k := 0
			w.WriteErr = func(*vnet.Datagram) error {
				k++
				if k <= 6 && mask>>(k-1)&1 == 1 {
					return errNet
				}
				return nil
			}
			okN := 0
			for i := 0; i < 6; i++ {
				w.Inject(host(9), poll())
				if mask>>i&1 == 0 {
					okN++
				}
				if apart == 1 {
					vrt.Quiesce()
				}
			}
			vrt.Quiesce()
			want := expectReply(n.Config)
			checkReplies(w, 0, okN, want, defaultBroadcast, nil)
			w.Inject(host(9), poll())
			vrt.Quiesce()
			checkReplies(w, 0, okN+1, want, defaultBroadcast, nil)
			if len(w.Failed) != 6-okN {
				fail("%d writes failed, want %d", len(w.Failed), 6-okN)
			}
			mustReturn("Stop", 5*sec, n.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-controller", D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "2 of 13 faults at the socket of a controller and none, every or every third write failing for 4 s; it still learns nodes, polls and sends their universes",
		Run: func() {
			w := vnet.NewWorld()
			c := artnet.NewController("ctl", ownIP, loud(), artnet.MaxFPS(4))
			if err := launch(c); err != nil {
				fail("Start: %v", err)
			}
			a := announcement{ip: net.IP{2, 0, 0, 50}, name: "n", ports: []byte{0x80}, swin: []byte{0}, swout: []byte{1}}.bytes()
			early := choose(2, "node known before") == 1
			if early {
				w.Inject(host(50), a)
				vrt.Quiesce()
			}
			wr := choose(3, "writes")
			k := 0
			w.WriteErr = func(*vnet.Datagram) error {
				k++
				if wr == 1 || wr == 2 && k%3 == 0 {
					return errNet
				}
				return nil
			}
			for i := 0; i < 2; i++ {
				fault(w, choose(faults, "fault"))
				vrt.Sleep(2*sec + 50*ms)
			}
			w.WriteErr = nil
			w.Inject(host(50), a)
			vrt.Quiesce()
			if len(c.Nodes) != 1 || c.OutputAddress[artnet.Address{SubUni: 1}] != c.Nodes[0] {
				fail("the node is not known after the faults")
			}
			mark := w.Mark()
			var data [512]byte
			data[7] = 9
			c.SendDMXToAddress(data, artnet.Address{SubUni: 1})
			vrt.Sleep(3*sec + 500*ms)
			polls, replies, frames := 0, 0, 0
			for _, d := range w.Sent[mark:] {
				switch op(d.Data) {
				case 0x2000:
					polls++
				case 0x2100:
					replies++
				case 0x5000:
					frames++
					if d.Data[18+7] != 9 {
						fail("an ArtDmx packet with old data was sent")
					}
				}
			}
			if polls < 1 || replies < 1 || frames < 3 {
				fail("in 3.5 s after the faults: %d polls, %d poll replies, %d ArtDmx packets", polls, replies, frames)
			}
			mustReturn("Stop", 5*sec, c.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})
}

// ---- C13 ----

// stopped checks that a stopped object does nothing any more.
func stopped(w *vnet.World, inject bool) {
	if o := w.Open(); len(o) > 0 {
		fail("the socket is still open after Stop returned")
	}
	mark := w.Mark()
	vrt.Quiesce()
	if inject {
		w.Inject(host(9), poll())
	}
	vrt.Sleep(7 * sec)
	vrt.Quiesce()
	if len(w.Sent) > mark {
		fail("sent after Stop had returned: %s", describe(w.Sent[mark].Data))
	}
}

func traffic(w *vnet.World, kind, n int) {
	st := stimuli()
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			w.Inject(host(9), poll())
		case 1:
			w.Inject(host(9), filled(kDMX, i+1))
		case 2:
			s := st[(i*5)%len(st)]
			w.Inject(s.from, s.data)
		case 3:
			w.Inject(host(9), announcement{ip: net.IP{2, 0, 1, byte(i)}, ports: []byte{0x80}, swin: []byte{0}, swout: []byte{byte(i)}}.bytes())
		}
	}
}

func init() {
	anywhere := func(sizes, sts []int) func() {
		return func() {
			w := vnet.NewWorld()
			style := pick("style", code.StNode, code.StController)
			n := artnet.NewNode("a node", style, ownIP, quiet())
			n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) { vrt.Yield() })
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			kind := choose(4, "kind")
			size := pick("size", sizes...)
			traffic(w, kind, size)
			k := pick("steps before stop", sts...)
			steps(k)
			mustReturn("Stop", 5*sec, n.Stop)
			stopped(w, true)
			noGoroutines("after Stop")
		}
	}
	scn(&Scenario{Prop: "C13", Name: "c13-stop-anywhere", D: [2]int{0, 1},
		What: "0, 1, 5, 12 or 35 datagrams of 4 kinds pending (style node or controller), Stop after 0..80 scheduling steps",
		Run:  anywhere([]int{0, 1, 5, 12, 35}, []int{0, 1, 2, 3, 5, 8, 12, 20, 40, 80})})
	scn(&Scenario{Prop: "C13", Name: "c13-stop-schedules", D: [2]int{1, 2},
		What: "2 or 14 datagrams of 4 kinds pending, Stop after 0, 6 or 30 scheduling steps, schedules within the bound",
		Run:  anywhere([]int{2, 14}, []int{0, 6, 30})})

	scn(&Scenario{Prop: "C13", Name: "c13-stop-idle", D: [2]int{2, 4},
		What: "Stop of an idle node and of one with one poll or packet in flight, deeper schedules",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) {})
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			switch choose(4, "in flight") {
			case 1:
				traffic(w, 0, 1)
			case 2:
				traffic(w, 1, 1)
			case 3:
				traffic(w, 0, 2)
			}
			mustReturn("Stop", 5*sec, n.Stop)
			stopped(w, true)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C13", Name: "c13-stop-in-callback", D: [2]int{1, 2},
		What: "a callback stops the node, with 0..30 more datagrams of 3 kinds behind it",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			done := 0
			n.RegisterCallback(code.OpSync, func(packet.ArtNetPacket) {
				n.Stop()
				if len(w.Open()) > 0 {
					fail("the socket is still open after Stop returned")
				}
				done++
			})
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			before := pick("before", 0, 1, 12)
			kind := choose(3, "kind")
			traffic(w, kind, before)
			w.Inject(host(9), kSync.New())
			traffic(w, kind, pick("behind", 0, 1, 5, 30))
			vrt.Quiesce()
			vrt.Sleep(2 * sec)
			vrt.Quiesce()
			if done < 1 {
				fail("Stop called by a callback has not returned\n%s", vrt.Dump())
			}
			stopped(w, false)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C13", Name: "c13-blocked-callbacks", D: [2]int{2, 3},
		What: "Stop while 1 or 14 callbacks are blocked; they return later",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			g := &gate{}
			n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) { g.wait() })
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			traffic(w, 1, pick("blocked", 1, 14))
			if choose(2, "let them block") == 1 {
				vrt.Quiesce()
			}
			traffic(w, 0, 3)
			mustReturn("Stop", 5*sec, n.Stop)
			stopped(w, true)
			g.release()
			vrt.Sleep(2 * sec)
			vrt.Quiesce()
			noGoroutines("after Stop and the end of all callbacks")
		}})

	scn(&Scenario{Prop: "C13", Name: "c13-live-traffic", D: [2]int{1, 2},
		What: "datagrams keep arriving while Stop runs; write errors and read errors around it",
		Run: func() {
			w := vnet.NewWorld()
			n := startNode(code.StNode, 1, quiet())
			kind := choose(3, "kind")
			f := choose(3, "fault")
			if f == 1 {
				w.WriteErr = func(*vnet.Datagram) error { return errNet }
			}
			g := vrt.GoSys("traffic", func() {
				for i := 0; i < 15; i++ {
					traffic(w, kind, 1)
					if f == 2 {
						w.InjectErr(errRefused)
					}
					vrt.Gosched()
				}
			})
			steps(pick("steps", 0, 2, 5, 9, 14, 30))
			mustReturn("Stop", 5*sec, n.Stop)
			vrt.Join(g)
			stopped(w, true)
			noGoroutines("after Stop")
		}})
}

// ---- C14 ----

// starter is a node or a controller.
type starter interface {
	Start() error
	Stop()
}

func alive(w *vnet.World, running bool, what string) {
	vrt.Quiesce()
	mark := len(sentOf(w, 0x2100))
	w.Inject(host(9), poll())
	vrt.Quiesce()
	got := len(sentOf(w, 0x2100)) - mark
	want := 0
	if running {
		want = 1
	}
	if got != want {
		fail("%s: a poll is answered %d times, want %d\n%s", what, got, want, vrt.Dump())
	}
	if n := len(w.Open()); n != want {
		fail("%s: %d sockets open, want %d", what, n, want)
	}
}

func lifecycle(w *vnet.World, s starter, n int, gaps []int, ops int, check bool) {
	running := false
	hist := []string{}
	for i := 0; i < n; i++ {
		o := choose(ops, "op")
		switch o {
		case 0, 2: // Start; 2: the address is taken
			w.BindErr = nil
			if o == 2 {
				w.BindErr = func(*net.UDPAddr) error { return sysErr("bind", syscall.EADDRINUSE) }
			}
			var err error
			mustReturn("Start", 5*sec, func() { err = s.Start() })
			w.BindErr = nil
			want := o == 0 && !running
			hist = append(hist, fmt.Sprintf("Start(%v)", err))
			if (err == nil) != want {
				fail("%s: returned %v, want success=%v", strings.Join(hist, " "), err, want)
			}
			running = running || want
		case 1:
			hist = append(hist, "Stop")
			mustReturn("Stop", 5*sec, s.Stop)
			running = false
		case 3:
			hist = append(hist, "Stop||Stop")
			g1 := vrt.GoSys("Stop 1", s.Stop)
			g2 := vrt.GoSys("Stop 2", s.Stop)
			mustReturn("concurrent Stop", 5*sec, func() { vrt.Join(g1); vrt.Join(g2) })
			running = false
		}
		switch gaps[choose(len(gaps), "gap")] {
		case 1:
			vrt.Quiesce()
		case 2:
			vrt.Sleep(3*sec + 100*ms)
		}
		if check {
			alive(w, running, strings.Join(hist, " "))
		}
	}
	alive(w, running, strings.Join(hist, " "))
	vrt.Sleep(7 * sec)
	alive(w, running, strings.Join(hist, " ")+", 7 s later")
	if running {
		mustReturn("Stop", 5*sec, s.Stop)
	}
	vrt.Sleep(5 * sec)
	vrt.Quiesce()
	noGoroutines("after " + strings.Join(hist, " "))
}

func init() {
	node := func() starter {
		return artnet.NewNode("a node", code.StNode, ownIP, quiet())
	}
	ctl := func() starter {
		return artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(2))
	}
	scn(&Scenario{Prop: "C14", Name: "c14-node-sequences", D: [2]int{0, 0},
		What: "node: all sequences of 4 of Start, Stop, Start with the address taken, two concurrent Stops, at once or after quiescence; state tested at the end",
		Run: func() {
			w := vnet.NewWorld()
			lifecycle(w, node(), 4, []int{0, 1}, 4, false)
		}})
	scn(&Scenario{Prop: "C14", Name: "c14-node-schedules", D: [2]int{2, 3},
		What: "node: all sequences of 3 of the same calls, state tested after each, all schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			lifecycle(w, node(), 3, []int{0}, 4, choose(2, "test each") == 1)
		}})
	scn(&Scenario{Prop: "C14", Name: "c14-controller-sequences", D: [2]int{0, 0},
		What: "controller: all sequences of 4 of the same calls, at once or 3.1 s apart",
		Run: func() {
			w := vnet.NewWorld()
			lifecycle(w, ctl(), 4, []int{0, 2}, 4, false)
		}})
	scn(&Scenario{Prop: "C14", Name: "c14-controller-schedules", D: [2]int{1, 2},
		What: "controller: all sequences of 3 of the same calls, state tested after each, all schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			lifecycle(w, ctl(), 3, []int{0}, 4, choose(2, "test each") == 1)
		}})
	scn(&Scenario{Prop: "C14", Name: "c14-long", D: [2]int{-1, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "node and controller: all sequences of 6 calls",
		Run: func() {
			w := vnet.NewWorld()
			if choose(2, "object") == 0 {
				lifecycle(w, node(), 6, []int{1}, 4, false)
			} else {
				lifecycle(w, ctl(), 6, []int{0}, 4, false)
			}
		}})
	scn(&Scenario{Prop: "C14", Name: "c14-restart-traffic", D: [2]int{1, 2},
		What: "a node stopped with 0, 3 or 30 polls pending and restarted at once: the new run answers its polls, once each",
		Run: func() {
			w := vnet.NewWorld()
			n := startNode(code.StNode, 1, quiet())
			kind, pend := choose(2, "kind"), pick("pending", 0, 3, 30)
			traffic(w, kind, pend)
			steps(pick("steps", 0, 3, 10, 30))
			mustReturn("Stop", 5*sec, n.Stop)
			before := w.Mark()
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			// polls heard by the first run may still be answered by the second
			vrt.Quiesce()
			if kind != 0 {
				pend = 0
			}
			if len(w.Sent) > pend {
				fail("%d replies to %d polls", len(w.Sent), pend)
			}
			checkReplies(w, before, len(w.Sent)-before, expectReply(n.Config), defaultBroadcast, nil)
			mark := w.Mark()
			w.Inject(host(9), poll())
			w.Inject(host(9), poll())
			vrt.Quiesce()
			checkReplies(w, mark, 2, expectReply(n.Config), defaultBroadcast, nil)
			mustReturn("Stop", 5*sec, n.Stop)
			stopped(w, true)
			noGoroutines("after Stop")
		}})
	scn(&Scenario{Prop: "C14", Name: "c14-address-taken", D: [2]int{1, 2},
		What: "two objects on one address: the second fails to start until the first is stopped",
		Run: func() {
			w := vnet.NewWorld()
			mk := func(k int) starter {
				if k == 0 {
					return node()
				}
				return ctl()
			}
			a, b := mk(choose(2, "first")), mk(choose(2, "second"))
			if err := a.Start(); err != nil {
				fail("Start: %v", err)
			}
			if b.Start() == nil {
				fail("Start succeeded although the address is taken")
			}
			if choose(2, "stop after failure") == 1 {
				mustReturn("Stop", 5*sec, b.Stop)
			}
			alive(w, true, "first object")
			mustReturn("Stop", 5*sec, a.Stop)
			if err := b.Start(); err != nil {
				fail("Start after the address became free: %v", err)
			}
			alive(w, true, "second object")
			mustReturn("Stop", 5*sec, b.Stop)
			alive(w, false, "after both stops")
			vrt.Sleep(5 * sec)
			noGoroutines("after Stop")
		}})
	scn(&Scenario{Prop: "C14", Name: "c14-restart-controller", D: [2]int{0, 1},
		What: "a controller that knows nodes is stopped and started again: it polls, learns nodes and sends their universes again",
		Run: func() {
			w := vnet.NewWorld()
			c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(2))
			a := announcement{ip: net.IP{2, 0, 0, 50}, name: "n", ports: []byte{0x80, 0xc0}, swin: []byte{0, 5}, swout: []byte{1, 2}}.bytes()
			for r := 0; r < 3; r++ {
				mark := w.Mark()
				if err := launch(c); err != nil {
					fail("Start number %d: %v", r+1, err)
				}
				if len(c.Nodes) != 0 || len(c.OutputAddress) != 0 || len(c.InputAddress) != 0 {
					fail("run %d begins with %d nodes, %d output and %d input addresses", r+1, len(c.Nodes), len(c.OutputAddress), len(c.InputAddress))
				}
				if choose(2, "write early") == 1 {
					c.SendDMXToAddress([512]byte{1}, artnet.Address{SubUni: 1})
				}
				vrt.Sleep(pick("silence", 100*ms, 1100*ms))
				for _, d := range w.Sent[mark:] {
					if op(d.Data) == 0x5000 {
						fail("run %d sends ArtDmx before a node was heard of", r+1)
					}
				}
				w.Inject(host(50), a)
				vrt.Sleep(pick("run time", 1100*ms, 3100*ms))
				polls, frames := 0, 0
				seq := byte(0)
				for _, d := range w.Sent[mark:] {
					switch op(d.Data) {
					case 0x2000:
						polls++
					case 0x5000:
						frames++
						if !bytes.Equal(d.Data[18:], make([]byte, 512)) {
							fail("run %d: the node gets data of an earlier run", r+1)
						}
						seq++
						if d.Data[12] != seq {
							fail("run %d: sequence number %d, want %d", r+1, d.Data[12], seq)
						}
					}
				}
				if polls < 1 || frames < 4 {
					fail("run %d: %d polls and %d ArtDmx packets in a second", r+1, polls, frames)
				}
				if len(c.Nodes) != 1 || len(c.OutputAddress) != 2 {
					fail("run %d: %d nodes and %d addresses known, want 1 and 2", r+1, len(c.Nodes), len(c.OutputAddress))
				}
				c.SendDMXToAddress([512]byte{7, 7}, artnet.Address{SubUni: 1})
				mustReturn("Stop", 5*sec, c.Stop)
				mark = w.Mark()
				vrt.Sleep(pick("pause", 10*ms, 4*sec))
				if len(w.Sent) > mark {
					fail("sent while stopped")
				}
			}
			vrt.Sleep(5 * sec)
			noGoroutines("after Stop")
		}})
}
