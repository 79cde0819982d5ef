package main

import (
	"bytes"
	"fmt"
	"net"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// Long histories, complete ranges of values and less usual circumstances; most of
// these are run under the default schedules only.

const hour = 3600 * sec

func init() {
	scn(&Scenario{Prop: "C10", Name: "c10-long", D: [2]int{0, 0}, MaxSteps: 2000000,
		What: "700 polls one by one, 1 ms or 40 s apart, and a poll after 3 hours of silence, to a node and to a controller",
		Run: func() {
			w := vnet.NewWorld()
			gap := pick("gap", 1*ms, 40*sec)
			isCtl := choose(2, "object") == 1
			var want []byte
			if isCtl {
				if gap > sec {
					gap = 400 * ms
				}
				startCtl(1)
				want = expectReply(ctlConfig)
			} else {
				n := startNode(code.StNode, 3, quiet())
				want = expectReply(n.Config)
			}
			other := func(d *vnet.Datagram) bool { return isCtl && op(d.Data) == 0x2000 }
			for i := 0; i < 700; i++ {
				w.Inject(host(5+i%200), poll())
				vrt.Sleep(gap)
			}
			vrt.Quiesce()
			checkReplies(w, 0, 700+len(sentOf(w, 0x2000)), want, defaultBroadcast, other)
			vrt.Sleep(3*hour + 100*ms)
			w.Inject(host(9), poll())
			vrt.Quiesce()
			checkReplies(w, 0, 701+len(sentOf(w, 0x2000)), want, defaultBroadcast, other)
		}})

	scn(&Scenario{Prop: "C10", Name: "c10-values", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "polls with every talk-to-me byte, every priority, every accepted version (low byte, high byte), every length from 14 to 600 and from every other port number's low byte; the same bytes in a datagram of another kind are not answered",
		Run: func() {
			w := vnet.NewWorld()
			n := startNode(code.StNode, 1, quiet())
			want := expectReply(n.Config)
			what := choose(7, "what")
			count := 0
			send := func(from net.UDPAddr, d []byte, answer bool) {
				w.Inject(from, d)
				if answer {
					count++
				}
				vrt.Quiesce()
			}
			for v := 0; v < 256; v++ {
				switch what {
				case 0:
					send(host(9), kPoll.Put(kPoll.New(), "TalkToMe", byte(v)), true)
				case 1:
					send(host(9), kPoll.Put(poll(), "Priority", byte(v)), true)
				case 2:
					d := poll()
					d[11] = byte(v)
					send(host(9), d, v >= 14)
				case 3:
					send(net.UDPAddr{IP: net.IP{2, 0, 0, 9}, Port: 1 + v*257}, poll(), true)
				case 4:
					d := poll()
					d[9] = byte(v)
					send(host(9), d, v == 0x20)
					if v != 0 {
						d = poll()
						d[8] = byte(v)
						send(host(9), d, false)
					}
				case 5:
					for k := 0; k < 3; k++ {
						l := v*3 + k
						d := append(poll(), make([]byte, 800)...)[:l]
						send(host(9), d, l >= 14)
					}
				case 6:
					d := poll()
					d[10], d[11] = byte(v), []byte{14, 15, 255}[v%3]
					send(host(9), d, true)
				}
			}
			checkReplies(w, 0, count, want, defaultBroadcast, nil)
		}})

	scn(&Scenario{Prop: "C10", Name: "c10-own-address", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "own IP given as 4 or 16 bytes or not at all; polls from every address that differs from it in one bit, or one byte, and from itself in both forms",
		Run: func() {
			w := vnet.NewWorld()
			own := net.IP{10, 127, 0, 200}
			form := choose(3, "own IP")
			ip := [][]byte{own.To4(), own.To16(), nil}[form]
			as := choose(2, "object")
			var want []byte
			if as == 0 {
				n := artnet.NewNode("a node", code.StNode, ip, quiet())
				if err := launch(n); err != nil {
					fail("Start: %v", err)
				}
				want = expectReply(n.Config)
			} else {
				c := artnet.NewController("ctl", ip, quiet(), artnet.MaxFPS(1))
				if err := launch(c); err != nil {
					fail("Start: %v", err)
				}
				want = expectReply(artnet.NodeConfig{Name: "ctl", Type: code.StController, IP: ip})
			}
			count := as
			send := func(from net.IP, answer bool) {
				w.Inject(net.UDPAddr{IP: from, Port: 6454}, poll())
				if answer {
					count++
				}
				vrt.Quiesce()
			}
			send(own.To4(), form == 2)
			send(own.To16(), form == 2)
			for b := 0; b < 32; b++ {
				o := append(net.IP(nil), own...)
				o[b/8] ^= 0x80 >> (b % 8)
				send(o, true)
				send(o.To16(), true)
			}
			for b := 0; b < 4; b++ {
				o := append(net.IP(nil), own...)
				o[b]++
				send(o, true)
				o = net.IP{own[(b+1)%4], own[(b+2)%4], own[(b+3)%4], own[b]}
				send(o, b != 3 || form == 2)
			}
			w.Inject(net.UDPAddr{IP: own, Port: 1}, poll())
			if form == 2 {
				count++
			}
			vrt.Quiesce()
			checkReplies(w, 0, count, want, defaultBroadcast, func(d *vnet.Datagram) bool { return as == 1 && op(d.Data) == 0x2000 })
		}})

	scn(&Scenario{Prop: "C11", Name: "c11-long", D: [2]int{0, 0}, MaxSteps: 2000000,
		What: "ArtDmx packets of every legal length, and 700 packets of all kinds, one by one or in bursts of 20; a packet after 3 hours of silence; contents compared at the end",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			for _, k := range ref.Kinds {
				n.RegisterCallback(opc(k), c.cb(k.Name))
			}
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			every := pick("burst", 1, 20)
			all := choose(2, "kinds") == 1
			want := map[string][][]byte{}
			for i := 0; i < 700; i++ {
				k := kDMX
				if all {
					k = ref.Kinds[i%len(ref.Kinds)]
				}
				d := filled(k, i)
				want[k.Name] = append(want[k.Name], d)
				w.Inject(host(5+i%9), d)
				if i%every == 0 {
					vrt.Quiesce()
				}
			}
			vrt.Sleep(3 * hour)
			d := filled(kDMX, 1001)
			want[kDMX.Name] = append(want[kDMX.Name], d)
			w.Inject(host(9), d)
			vrt.Quiesce()
			for _, k := range ref.Kinds {
				c.expect(k.Name, want[k.Name]...)
			}
		}})

	scn(&Scenario{Prop: "C11", Name: "c11-same", D: [2]int{2, 3},
		What: "2 or 3 identical packets from one or several hosts are all passed on, each as a packet of its own (callbacks change what they get)",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			k := pick("kind", kDMX, ref.ByName("ArtTrigger"), kReply, kPoll)
			inner := c.cb("x")
			n.RegisterCallback(opc(k), inner)
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			var want [][]byte
			hosts := choose(2, "hosts")
			for i := 0; i < pick("number", 2, 3); i++ {
				d := filled(k, 5)
				want = append(want, d)
				w.Inject(host(9+hosts*i), d)
			}
			vrt.Quiesce()
			c.expect("x", want...)
			for i := range c.got {
				for j := range c.got[:i] {
					if c.got[i].p == c.got[j].p {
						fail("two packets were passed on as one object")
					}
				}
			}
		}})

	scn(&Scenario{Prop: "C11", Name: "c11-blocked-kinds", D: [2]int{1, 1}, Starve: [2]int{0, 1},
		What: "the callback of each of the 12 kinds blocks, once or 12 times, while packets of each other kind and polls arrive",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			g := &gate{}
			a := choose(12, "blocking")
			b := (a + 1 + choose(11, "other")) % 12
			ka, kb := ref.Kinds[a], ref.Kinds[b]
			inner := c.cb("a")
			n.RegisterCallback(opc(ka), func(p packet.ArtNetPacket) {
				g.wait()
				inner(p)
			})
			n.RegisterCallback(opc(kb), c.cb("b"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			k := pick("times", 1, 12)
			var wa, wb [][]byte
			for i := 0; i < k; i++ {
				wa = append(wa, filled(ka, i+1))
				w.Inject(host(9), wa[i])
			}
			polls := 0
			for i := 0; i < 2; i++ {
				wb = append(wb, filled(kb, i+1))
				w.Inject(host(9), wb[i])
				if ka != kPoll && kb != kPoll {
					w.Inject(host(7), poll())
					polls++
				}
			}
			vrt.Quiesce()
			if g.in != k {
				fail("%d callbacks called, want %d while none has returned\n%s", g.in, k, vrt.Dump())
			}
			c.expect("b", wb...)
			checkReplies(w, 0, polls, expectReply(n.Config), defaultBroadcast, nil)
			g.release()
			vrt.Quiesce()
			c.expect("a", wa...)
			c.expect("b", wb...)
		}})

	scn(&Scenario{Prop: "C11", Name: "c11-own-address", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "own IP given as 4 or 16 bytes or not at all; packets from every address that differs from it in one bit and from itself in both forms and from other ports, and from loopback, link-local, private, public, multicast and broadcast addresses",
		Run: func() {
			w := vnet.NewWorld()
			own := net.IP{10, 127, 0, 200}
			form := choose(3, "own IP")
			n := artnet.NewNode("a node", code.StNode, [][]byte{own.To4(), own.To16(), nil}[form], quiet())
			c := &collector{}
			k := pick("kind", kDMX, kReply, kSync)
			n.RegisterCallback(opc(k), c.cb("x"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			var want [][]byte
			send := func(from net.UDPAddr, deliver bool) {
				d := filled(k, len(want)+1)
				w.Inject(from, d)
				if deliver {
					want = append(want, d)
				}
				vrt.Quiesce()
			}
			for _, port := range []int{6454, 1, 65535} {
				send(net.UDPAddr{IP: own.To4(), Port: port}, form == 2)
				send(net.UDPAddr{IP: own.To16(), Port: port}, form == 2)
			}
			for b := 0; b < 32; b++ {
				o := append(net.IP(nil), own...)
				o[b/8] ^= 0x80 >> (b % 8)
				send(net.UDPAddr{IP: o, Port: 6454}, true)
				send(net.UDPAddr{IP: o.To16(), Port: 6454}, true)
			}
			for _, o := range []net.IP{{0, 0, 0, 0}, {127, 0, 0, 1}, {127, 1, 2, 3}, {169, 254, 3, 4}, {192, 168, 1, 1}, {172, 16, 0, 1}, {8, 8, 8, 8}, {224, 0, 0, 1}, {239, 255, 0, 1}, {255, 255, 255, 255}, {2, 255, 255, 255}, {10, 127, 0, 255}} {
				send(net.UDPAddr{IP: o, Port: 6454}, true)
				send(net.UDPAddr{IP: o, Port: 0}, true)
			}
			c.expect("x", want...)
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-identities", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.NewestFirst},
		What: "33 nodes whose IP addresses differ from one in a single bit, all with the same or with different names, MAC addresses and ports: all known separately, before and after re-announcing in reverse",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			base := net.IP{192, 168, 0, 77}
			same := choose(2, "same name") == 1
			ports := choose(3, "ports")
			mk := func(i, r int) announcement {
				a := announcement{ip: append(net.IP(nil), base...), name: "node"}
				if i < 32 {
					a.ip[i/8] ^= 0x80 >> (i % 8)
				}
				if !same {
					a.name = fmt.Sprint("node ", i)
				}
				switch ports {
				case 0:
					a.ports, a.swin, a.swout = []byte{0xc0}, []byte{byte(i)}, []byte{byte(i)}
					a.net = byte(i / 16)
				case 1: // all the same
					a.ports, a.swin, a.swout = []byte{0xc0}, []byte{3}, []byte{4}
				case 2:
					a.style = byte(i % 2)
					a.ports, a.swin, a.swout = []byte{0x80}, []byte{0}, []byte{byte(i + r)}
					a.net = byte(i / 16)
				}
				return a
			}
			for r := 0; r < 2; r++ {
				for i := 0; i < 33; i++ {
					a := mk(i, r)
					if r == 1 {
						a = mk(32-i, r)
					}
					reply(w, a)
					b.learn(a)
					vrt.Quiesce()
				}
				b.check(c, fmt.Sprint("round ", r))
			}
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-controller-partial", D: [2]int{1, 2}, MaxSteps: 400000,
		What: "writes to one of two nodes, or to the broadcast address, fail for 5 s: the packets to the others are not affected, and all are sent again afterwards",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			l := newLedger(w)
			c := startCtl(10)
			vrt.Sleep(10 * ms)
			as := []announcement{outNode(50, 1, 2), outNode(51, 3)}
			for _, a := range as {
				reply(w, a)
			}
			vrt.Sleep(300 * ms)
			bad := pick("unreachable", ip4(50), ip4(51), defaultBroadcast.IP)
			e := pick("error", errNet, error(errWeird))
			w.WriteErr = func(d *vnet.Datagram) error {
				if d.To.IP.Equal(bad) {
					return e
				}
				return nil
			}
			from := vrt.Elapsed()
			for i := 0; i < 10; i++ {
				if i == 5 {
					vrt.Unfreeze()
				}
				if i == 7 {
					vrt.Freeze()
				}
				for u := 1; u <= 3; u++ {
					if !bad.Equal(ip4(50)) || u == 3 {
						l.set(c, 1, uni(byte(u)), false, false)
					}
				}
				vrt.Sleep(500 * ms)
			}
			w.WriteErr = nil
			for _, a := range as {
				reply(w, a)
			}
			vrt.Sleep(500 * ms)
			vrt.Quiesce()
			for a, ip := range owners(as...) {
				if !ip.Equal(bad) {
					rhythm(l, a, 100*ms, 10*ms, vrt.Elapsed())
				} else if f := l.frames[a]; f[len(f)-1].at < vrt.Elapsed()-350*ms {
					fail("%v: nothing is sent to %v any more after writes to it failed", a, ip)
				}
			}
			if !bad.Equal(defaultBroadcast.IP) {
				cadence(w, 0, vrt.Elapsed(), defaultBroadcast, 0)
			} else {
				vrt.Sleep(3 * sec)
				vrt.Quiesce()
				n := 0
				for _, d := range sentOf(w, 0x2000) {
					if d.At > from {
						n++
					}
				}
				if n < 1 {
					fail("no poll is sent any more after polls failed")
				}
			}
			l.check(owners(as...), 0, 0)
			mustReturn("Stop", 5*sec, c.Stop)
		}})

	scn(&Scenario{Prop: "C14", Name: "c14-concurrent", D: [2]int{1, 2},
		What: "node or controller, stopped or running: two concurrent Starts, or Start concurrent with Stop; exactly one Start takes effect and the object ends in the state of the call that came last",
		Run: func() {
			w := vnet.NewWorld()
			var s starter
			if choose(2, "object") == 0 {
				s = artnet.NewNode("a node", code.StNode, ownIP, quiet())
			} else {
				s = artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(2))
			}
			before := choose(3, "before")
			if before >= 1 {
				if err := s.Start(); err != nil {
					fail("Start: %v", err)
				}
			}
			if before == 2 {
				vrt.Quiesce()
				s.Stop()
			}
			running := before == 1
			what := choose(2, "calls")
			var errs [2]error
			g1 := vrt.GoSys("Start 1", func() { errs[0] = s.Start() })
			g2 := vrt.GoSys("call 2", func() {
				if what == 0 {
					errs[1] = s.Start()
				} else {
					s.Stop()
				}
			})
			mustReturn("concurrent calls", 5*sec, func() { vrt.Join(g1); vrt.Join(g2) })
			if what == 0 {
				ok := 0
				for _, e := range errs {
					if e == nil {
						ok++
					}
				}
				if want := 1 - before%2; ok != want {
					fail("two concurrent Starts of an object that is running=%v: %d succeeded (%v)", running, ok, errs)
				}
				running = true
			} else {
				if !running && errs[0] != nil {
					fail("Start of a stopped object, concurrent with Stop, failed: %v", errs[0])
				}
				if running {
					// Stop then Start, or a failing Start then Stop
					running = errs[0] == nil
				} else {
					vrt.Quiesce()
					running = len(w.Open()) > 0
				}
			}
			alive(w, running, "after concurrent calls")
			vrt.Sleep(4 * sec)
			alive(w, running, "4 s after concurrent calls")
			mustReturn("Stop", 5*sec, s.Stop)
			alive(w, false, "after the last Stop")
			vrt.Sleep(4 * sec)
			noGoroutines("after the last Stop")
			if err := s.Start(); err != nil {
				fail("Start in the end: %v", err)
			}
			alive(w, true, "after the last Start")
			mustReturn("Stop", 5*sec, s.Stop)
		}})

	scn(&Scenario{Prop: "C15", Name: "c15-long", D: [2]int{0, 0}, MaxSteps: 4000000,
		What: "one hour (1200 polls): no node, a node that answers every poll, or a node that comes and goes",
		Run: func() {
			w := vnet.NewWorld()
			kind := choose(3, "nodes")
			startCtl(1)
			a := outNode(50, 1)
			for i := 0; i < 1200; i++ {
				if kind == 1 || kind == 2 && i/20%2 == 0 {
					reply(w, a)
				}
				vrt.Sleep(3 * sec)
			}
			vrt.Sleep(100 * ms)
			vrt.Quiesce()
			cadence(w, 0, vrt.Elapsed(), defaultBroadcast, 0)
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-crowd", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 1000000,
		What: "300 nodes (IP addresses that differ in any byte) with 4 outputs and 4 inputs each; announced, re-announced with other ports in reverse order, and every third one withdrawn",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			mk := func(i, r int) announcement {
				k := i*4 + r
				a := announcement{ip: net.IP{byte(i / 100), byte(i / 10 % 10), byte(i % 10), byte(i*7 + 1)}, name: fmt.Sprint(i), net: byte(k >> 8), sub: byte(k>>4) & 15}
				for j := 0; j < 4; j++ {
					a.ports = append(a.ports, 0xc0)
					a.swin = append(a.swin, byte(k+j)&15)
					a.swout = append(a.swout, byte(k+3-j)&15)
				}
				return a
			}
			say := func(a announcement) {
				reply(w, a)
				b.learn(a)
				vrt.Quiesce()
			}
			for i := 0; i < 300; i++ {
				say(mk(i, 0))
			}
			b.check(c, "after 300 nodes")
			for i := 299; i >= 0; i-- {
				say(mk(i, 5))
			}
			b.check(c, "after 300 changes")
			for i := 0; i < 300; i += 3 {
				a := mk(i, 0)
				a.ports, a.swin, a.swout = nil, nil, nil
				say(a)
			}
			b.check(c, "after 100 withdrawals")
			vrt.Sleep(2 * sec)
			b.check(c, "later")
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-fields", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "a known node whose next reply differs in one field, for every field of the poll reply: the new value is known; a reply that equals the last one but for the sender's port or host changes nothing",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			base := announcement{ip: ip4(50), name: "n", ports: []byte{0xc0, 0x80, 0x40, 0x85}, swin: []byte{1, 2, 3, 4}, swout: []byte{5, 6, 7, 8}, net: 3, sub: 2}.bytes()
			n := 0
			check := func(d []byte) {
				vrt.Quiesce()
				want := expectConfig(d)
				if len(c.Nodes) != 1 {
					fail("%d nodes known, want 1", len(c.Nodes))
				}
				if m := sameConfig(c.Nodes[0].Node, want); m != "" {
					fail("after a changed reply: %s", m)
				}
				if len(c.OutputAddress) != len(want.OutputPorts) || len(c.InputAddress) != len(want.InputPorts) {
					fail("%d output and %d input addresses known, want %d and %d", len(c.OutputAddress), len(c.InputAddress), len(want.OutputPorts), len(want.InputPorts))
				}
				for _, p := range want.OutputPorts {
					if c.OutputAddress[p.Address] != c.Nodes[0] {
						fail("output address %v missing", p.Address)
					}
				}
				for _, p := range want.InputPorts {
					if c.InputAddress[p.Address] != c.Nodes[0] {
						fail("input address %v missing", p.Address)
					}
				}
				n++
			}
			w.Inject(nip(50), base)
			check(base)
			back := choose(2, "back between")
			for i := range kReply.Fields {
				f := &kReply.Fields[i]
				switch f.Name {
				case "IPAddress", "Port", "Style":
					continue
				}
				for j := 0; j < f.Size; j++ {
					d := append([]byte(nil), base...)
					d[f.Off+j] ^= 1
					w.Inject(nip(50), d)
					check(d)
					if back == 1 {
						w.Inject(net.UDPAddr{IP: ip4(60 + i), Port: 1234}, base)
						check(base)
					}
				}
			}
			if n < 100 {
				fail("only %d replies", n)
			}
		}})

	scn(&Scenario{Prop: "C17", Name: "c17-boundary", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 400000,
		What: "150 phases (20 ms steps) of the last reply against the clean-up cycle; node with outputs, inputs, no ports, or controller: known, with its addresses, 6.999 s after it, gone 10.001 s after it (it being the only one or the second of two 0.1, 0.95 or 2.9 s apart); and replies 6.995 s apart five times: known all the time",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			phase := time.Duration(choose(150, "phase"))*20*ms + 5*ms
			mode := choose(5, "steady")
			steady := mode == 1
			vrt.Sleep(phase)
			a := pick("node", outNode(50, 1, 2),
				announcement{ip: ip4(50), name: "inputs", ports: []byte{0x40, 0x40}, swin: []byte{1, 2}, swout: []byte{0, 0}},
				announcement{ip: ip4(50), name: "no ports"},
				announcement{ip: ip4(50), name: "controller", style: 1, ports: []byte{0xc0}, swin: []byte{9}, swout: []byte{8}})
			cfg := expectConfig(a.bytes())
			is := func(want bool, when string) {
				vrt.Quiesce()
				no, ni := 0, 0
				if want {
					no, ni = len(cfg.OutputPorts), len(cfg.InputPorts)
				}
				if (known(c, a.ip) != nil) != want || len(c.OutputAddress) != no || len(c.InputAddress) != ni {
					fail("phase %v: node %q known=%v, %d output and %d input addresses %s", phase, a.name, known(c, a.ip) != nil, len(c.OutputAddress), len(c.InputAddress), when)
				}
			}
			reply(w, a)
			is(true, "right after the reply")
			if steady {
				for i := 0; i < 5; i++ {
					first := known(c, a.ip)
					vrt.Sleep(6*sec + 995*ms)
					is(true, "6.995 s after the last reply")
					reply(w, a)
					is(true, "right after the reply")
					if known(c, a.ip) != first {
						fail("the node was forgotten in between")
					}
				}
			}
			if mode > 1 {
				vrt.Sleep([]time.Duration{100 * ms, 950 * ms, 2900 * ms}[mode-2])
				reply(w, a)
				is(true, "right after the second reply")
			}
			vrt.Sleep(6*sec + 999*ms)
			is(true, "6.999 s after the last reply")
			vrt.Sleep(3*sec + 2*ms)
			is(false, "10.001 s after the last reply")
			mark := w.Mark()
			vrt.Sleep(5 * sec)
			is(false, "15 s after the last reply")
			for _, d := range w.Sent[mark:] {
				if op(d.Data) == 0x5000 {
					fail("phase %v: ArtDmx sent to a forgotten node", phase)
				}
			}
		}})

	scn(&Scenario{Prop: "C17", Name: "c17-crowd", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 2000000,
		What: "40 nodes of which every 1st, 2nd, 3rd or 7th falls silent (or all but those); the others stay known for 4 minutes; the silent ones return after 2 minutes and are known",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			m := pick("every", 1, 2, 3, 7)
			inv := choose(2, "inverted") == 1
			b := newBook()
			ann := func(i int) announcement { return outNode(300+i, byte(i), byte(i+1)&15).at(byte(i/16), 1) }
			silent := func(i int) bool { return (i%m == 0) != inv }
			say := func(all bool) {
				for i := 0; i < 40; i++ {
					if all || !silent(i) {
						reply(w, ann(i))
						b.learn(ann(i))
						vrt.Quiesce()
					}
				}
			}
			say(true)
			for r := 0; r < 40; r++ {
				vrt.Sleep(6 * sec)
				say(r == 20)
				if r == 1 || r == 22 {
					for i := 0; i < 40; i++ {
						if silent(i) {
							b.forget(ann(i).ip)
						}
					}
					say(false)
				}
				if r%10 == 2 {
					b.check(c, fmt.Sprint("in round ", r))
				}
			}
		}})

	scn(&Scenario{Prop: "C18", Name: "c18-channels", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 400000,
		What: "new values that differ from the last ones in one channel only (each of 512), are a permutation of them, or differ in the lowest or highest bit only; back to black; the same values again; 25 ms apart",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(40)
			vrt.Sleep(3 * ms)
			reply(w, outNode(50, 1, 2))
			vrt.Quiesce()
			vrt.Sleep(30 * ms)
			kind := choose(5, "change")
			var cur [512]byte
			step := func(d [512]byte) {
				c.SendDMXToAddress(d, uni(1))
				mark := w.Mark()
				vrt.Sleep(25 * ms)
				vrt.Quiesce()
				n := 0
				for _, x := range w.Sent[mark:] {
					if op(x.Data) != 0x5000 {
						continue
					}
					v := zeros[:]
					if x.Data[14] == 1 {
						n++
						v = d[:]
					}
					if !bytes.Equal(x.Data[18:], v) {
						fail("universe %d: the frame sent does not carry the values set (%s)", x.Data[14], diff(x.Data[18:], v))
					}
				}
				if n < 1 && d != cur {
					fail("changed values are not sent within a frame interval")
				}
				cur = d
			}
			for i := 0; i < 512; i++ {
				if i%50 == 49 {
					reply(w, outNode(50, 1, 2))
				}
				d := cur
				switch kind {
				case 0:
					d[i] = 1
				case 1:
					d = [512]byte{}
					d[i] = 0xff
				case 2: // a permutation
					if i == 0 {
						for j := range d {
							d[j] = byte(j*3) ^ byte(j>>8)
						}
					}
					j := (i*37 + 1) % 512
					d[i], d[j] = d[j], d[i]
				case 3:
					d[(i*13)%512] ^= []byte{1, 0x80}[i%2]
				case 4: // black, white, the same again
					x := []byte{255, 0, 0, 7, 7, 255}[i%6]
					for j := range d {
						d[j] = x
					}
				}
				step(d)
			}
		}})

	scn(&Scenario{Prop: "C18", Name: "c18-shared-address", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 400000,
		What: "all sequences of 5 of: two nodes announce the same address (and one of their own), values are set for the shared and own addresses, waiting; each node only ever gets the values set while it was the owner",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(10)
			vrt.Sleep(33 * ms)
			nodes := []announcement{outNode(50, 1, 7), outNode(51, 7, 2)}
			bufs := map[string]map[artnet.Address]*[512]byte{}
			owner := map[artnet.Address]string{}
			ver := 0
			say := func(i int) {
				reply(w, nodes[i])
				vrt.Quiesce()
				ip := nodes[i].ip.String()
				if bufs[ip] == nil {
					bufs[ip] = map[artnet.Address]*[512]byte{}
				}
				for _, a := range nodes[i].addrs() {
					owner[a] = ip
					if bufs[ip][a] == nil {
						bufs[ip][a] = &[512]byte{}
					}
				}
			}
			wait := func(d time.Duration) {
				mark := w.Mark()
				vrt.Sleep(d)
				vrt.Quiesce()
				seen := map[artnet.Address]bool{}
				for _, x := range w.Sent[mark:] {
					if op(x.Data) != 0x5000 {
						continue
					}
					a := artnet.Address{Net: x.Data[15], SubUni: x.Data[14]}
					ip := x.To.IP.String()
					if owner[a] != ip {
						fail("%v is sent to %s, announced last by %s", a, ip, owner[a])
					}
					if !bytes.Equal(x.Data[18:], bufs[ip][a][:]) {
						fail("%v: the frame sent to %s does not carry the values set for it while that node had the address", a, ip)
					}
					seen[a] = true
				}
				if d >= 400*ms {
					for a := range owner {
						if !seen[a] {
							fail("%v is not sent any more", a)
						}
					}
				}
			}
			set := func(a artnet.Address) {
				ver++
				d := payload(a, 1, ver)
				c.SendDMXToAddress(d, a)
				vrt.Quiesce()
				if ip := owner[a]; ip != "" {
					*bufs[ip][a] = d
				}
			}
			say(choose(2, "first"))
			for i := 0; i < 5; i++ {
				switch k := choose(6, "operation"); k {
				case 0, 1:
					say(k)
				case 2:
					set(uni(7))
				case 3:
					set(uni(1))
				case 4:
					wait(100 * ms)
				case 5:
					wait(30 * ms)
				}
			}
			wait(400 * ms)
		}})

	scn(&Scenario{Prop: "C19", Name: "c19-crowd", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 4000000,
		What: "60 nodes with 4 universes each (240 universes), none, one or all of them updated, at frame rates 3 and 40, for 3 s",
		Run: func() {
			w := vnet.NewWorld()
			l := newLedger(w)
			l.untracked = true
			fps := pick("fps", 3, 40)
			pat := choose(3, "updates")
			c := startCtl(fps)
			vrt.Sleep(10 * ms)
			start := vrt.Elapsed()
			var as []announcement
			for i := 0; i < 60; i++ {
				as = append(as, outNode(300+i, 0, 1, 2, 3).at(byte(i/16), byte(i%16)))
				reply(w, as[i])
			}
			vrt.Quiesce()
			own := owners(as...)
			for t := 0; t < 20; t++ {
				switch pat {
				case 1:
					c.SendDMXToAddress([512]byte{byte(t)}, as[33].addrs()[2])
				case 2:
					for _, a := range as {
						for _, x := range a.addrs() {
							c.SendDMXToAddress([512]byte{byte(t)}, x)
						}
					}
				}
				vrt.Sleep(150 * ms)
			}
			vrt.Quiesce()
			for a := range own {
				rhythm(l, a, sec/time.Duration(fps), start, vrt.Elapsed())
			}
			numbering(w)
		}})

	scn(&Scenario{Prop: "C20", Name: "c20-return", D: [2]int{0, 0}, MaxSteps: 1000000,
		What: "two nodes, one of which is forgotten after 1..300 packets and returns: the other's count goes on, its own starts at 1; or the addresses move to the other node",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(20)
			vrt.Sleep(3 * ms)
			a, b := outNode(50, 0, 1), outNode(51, 2)
			move := choose(2, "move") == 1
			reply(w, a)
			reply(w, b)
			busy := choose(2, "busy") == 1
			run := func(d time.Duration) {
				for end := vrt.Elapsed() + d; vrt.Elapsed() < end; {
					if busy {
						for u := byte(0); u < 3; u++ {
							c.SendDMXToAddress([512]byte{byte(vrt.Elapsed() / ms)}, uni(u))
						}
					}
					vrt.Sleep(50 * ms)
					if vrt.Elapsed()%(2*sec) < 60*ms {
						reply(w, b)
					}
				}
			}
			run(pick("time", 1*sec, 8*sec))
			if move {
				reply(w, a)
				b = outNode(51, 2, 0, 1)
				reply(w, b)
				run(3 * sec)
				reply(w, a)
				run(3 * sec)
				numbering(w)
				return
			}
			run(12 * sec)
			if known(c, a.ip) != nil {
				return // C17
			}
			numbering(w)
			first := w.Mark()
			reply(w, a)
			run(2 * sec)
			seq := byte(0)
			for _, d := range w.Sent[first:] {
				if op(d.Data) == 0x5000 && d.To.IP.Equal(a.ip) {
					if seq++; d.Data[12] != seq {
						fail("after its return packet %d to the node has sequence number %d", seq, d.Data[12])
					}
				}
			}
			if seq == 0 {
				fail("nothing is sent to the node after its return")
			}
			// the other node's numbers go on
			var keep []*vnet.Datagram
			for _, d := range w.Sent {
				if d.To.IP.Equal(b.ip) {
					keep = append(keep, d)
				}
			}
			w.Sent = keep
			numbering(w)
		}})

	scn(&Scenario{Prop: "C24", Name: "c24-crowd", NoStarve: true, D: [2]int{0, 0}, MaxSteps: 1000000,
		What: "controller and 12 nodes with 0..4 outputs, started before, with or after it; values for all universes in 3 rounds; half of the nodes restart",
		Run: func() {
			w := routed()
			var ps []*peer
			for i := 0; i < 12; i++ {
				ps = append(ps, newPeer(w, 50+i, addrRun(byte(i*11), byte(i), 1+i%4), i%3))
			}
			c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(10))
			at := pick("controller starts", 0, 5, 12)
			gap := pick("gap", 0, 40*ms)
			for i := 0; i <= 12; i++ {
				if i == at {
					w.HostIP = ownIP
					if err := launch(c); err != nil {
						fail("Start: %v", err)
					}
				}
				if i < 12 {
					ps[i].start()
				}
				vrt.Sleep(gap)
			}
			vrt.Sleep(3*sec + 1*ms)
			vrt.Quiesce()
			knows(c, "one poll interval after the start", ps...)
			lightUp(c, 1, 100*ms, ps...)
			lightUp(c, 2, 100*ms, ps...)
			for i := 0; i < 12; i += 2 {
				mustReturn("Stop", 5*sec, ps[i].n.Stop)
			}
			if choose(2, "forget") == 1 {
				vrt.Sleep(10*sec + 1*ms)
				vrt.Quiesce()
				var live []*peer
				for i := 1; i < 12; i += 2 {
					live = append(live, ps[i])
				}
				knows(c, "10 s after half of the nodes stopped", live...)
			}
			for i := 0; i < 12; i += 2 {
				ps[i].start()
			}
			vrt.Sleep(3*sec + 1*ms)
			vrt.Quiesce()
			knows(c, "one poll interval after the restart", ps...)
			lightUp(c, 3, 100*ms, ps...)
		}})
}
