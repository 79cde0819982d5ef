package main

import (
	"net"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

func init() {
	scn(&Scenario{Prop: "C12", Name: "c12-node-long", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 2000000,
		What: "1500 of one fault (each of 13) or 1500 failing writes, all at once, apart or one a second; then 3 h of silence or none; then a poll is answered and a packet delivered",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			n.RegisterCallback(code.OpDMX, c.cb("dmx"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			f := choose(faults+1, "fault")
			how := choose(3, "apart")
			idle := choose(2, "idle") == 1
			if f == faults {
				w.WriteErr = func(*vnet.Datagram) error { return errNet }
			}
			for i := 0; i < 1500; i++ {
				if f == faults {
					w.Inject(host(3), poll())
				} else {
					fault(w, f)
				}
				switch how {
				case 0:
					if i%40 == 39 {
						vrt.Quiesce()
					}
				case 1:
					vrt.Quiesce()
				case 2:
					vrt.Sleep(sec)
				}
			}
			vrt.Quiesce()
			w.WriteErr = nil
			if idle {
				vrt.Sleep(3 * 3600 * sec)
			}
			mark := w.Mark()
			d := filled(kDMX, 5)
			w.Inject(host(9), poll())
			w.Inject(host(9), d)
			vrt.Quiesce()
			checkReplies(w, mark, 1, expectReply(n.Config), defaultBroadcast, nil)
			c.expect("dmx", d)
			mustReturn("Stop", 5*sec, n.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-controller-long", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 4000000,
		What: "a controller with 300 of one fault (each of 13) at its socket and all writes failing for 20 s, or an hour with every write failing or none; it still learns nodes, polls and sends",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(10)
			reply(w, outNode(50, 1))
			vrt.Quiesce()
			f := choose(faults+1, "fault")
			if choose(2, "writes") == 1 {
				w.WriteErr = func(*vnet.Datagram) error { return errNet }
			}
			if f == faults {
				vrt.Sleep(3600 * sec)
			} else {
				for i := 0; i < 300; i++ {
					fault(w, f)
					vrt.Sleep(67 * ms)
				}
			}
			vrt.Quiesce()
			w.WriteErr = nil
			reply(w, outNode(50, 1))
			reply(w, outNode(51, 2))
			vrt.Quiesce()
			if known(c, ip4(50)) == nil || known(c, ip4(51)) == nil {
				fail("the nodes are not known after the faults")
			}
			l := newLedger(w)
			l.untracked = true
			mark := w.Mark()
			l.set(c, 1, uni(1), false, false)
			l.set(c, 1, uni(2), false, false)
			vrt.Sleep(3*sec + 500*ms)
			l.final(uni(1))
			l.final(uni(2))
			polls, replies := 0, 0
			for _, d := range w.Sent[mark:] {
				switch op(d.Data) {
				case 0x2000:
					polls++
				case 0x2100:
					replies++
				}
			}
			if polls < 1 || replies < 1 || len(l.frames[uni(1)]) < 12 || len(l.frames[uni(2)]) < 12 {
				fail("in 3.5 s after the faults: %d polls, %d poll replies, %d and %d ArtDmx packets", polls, replies, len(l.frames[uni(1)]), len(l.frames[uni(2)]))
			}
			mustReturn("Stop", 5*sec, c.Stop)
		}})

	// ---- C16 ----

	scn(&Scenario{Prop: "C16", Name: "c16-bytes", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 1000000,
		What: "every byte of the poll reply with every value, in the reply of a known node or of a node not known before",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			base := announcement{ip: ip4(50), name: "n", ports: []byte{0xc0, 0x80, 0x40, 0x85}, swin: []byte{1, 2, 3, 4}, swout: []byte{5, 6, 7, 8}, net: 3, sub: 2}.bytes()
			fresh := choose(2, "new node") == 1
			f := &kReply.Fields[choose(len(kReply.Fields), "field")]
			style := f.Name == "Style"
			if f.Name == "IPAddress" || f.Name == "Port" || style && !fresh {
				return
			}
			size := f.Size
			if size > 8 {
				size = 8 // names and reports: the first bytes
			}
			if !fresh {
				w.Inject(nip(50), base)
				vrt.Quiesce()
			}
			id := 0
			want := 0
			for j := 0; j < size; j++ {
				for v := 0; v < 256; v++ {
					d := append([]byte(nil), base...)
					d[f.Off+j] = byte(v)
					ip := ip4(50)
					if fresh {
						id++
						ip = net.IP{9, byte(id >> 16), byte(id >> 8), byte(id)}
						kReply.Put(d, "IPAddress", ip...)
					}
					w.Inject(net.UDPAddr{IP: ip, Port: 6454}, d)
					vrt.Quiesce()
					cfg := expectConfig(d)
					take := cfg.Type == code.StNode || cfg.Type == code.StController && len(cfg.OutputPorts) > 0
					if take && (fresh || want == 0) {
						want++
					}
					if len(c.Nodes) != want {
						fail("%d nodes known, want %d (%s byte %d = %d)", len(c.Nodes), want, f.Name, j, v)
					}
					if !take {
						continue
					}
					var n *artnet.ControlledNode
					if fresh {
						n = c.Nodes[want-1]
						if !n.Node.IP.Equal(ip) {
							n = known(c, ip)
						}
					} else {
						n = c.Nodes[0]
					}
					if n == nil {
						fail("node not known (%s byte %d = %d)", f.Name, j, v)
					}
					if m := sameConfig(n.Node, cfg); m != "" {
						fail("%s byte %d = %d: %s", f.Name, j, v, m)
					}
					for _, p := range cfg.OutputPorts {
						if c.OutputAddress[p.Address] != n {
							fail("%s byte %d = %d: output address %v missing", f.Name, j, v, p.Address)
						}
					}
					for _, p := range cfg.InputPorts {
						if c.InputAddress[p.Address] != n {
							fail("%s byte %d = %d: input address %v missing", f.Name, j, v, p.Address)
						}
					}
				}
			}
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-odd-hosts", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "nodes announcing the addresses 0.0.0.0, 255.255.255.255, 127.0.0.1, 169.254.0.1, a multicast address, the controller's broadcast address and its own IP, in both orders, as node or output-capable controller, from their own or another host",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			ips := []net.IP{{0, 0, 0, 0}, {255, 255, 255, 255}, {127, 0, 0, 1}, {169, 254, 0, 1}, {239, 255, 0, 1}, {2, 255, 255, 255}, {2, 0, 0, 1}, {2, 0, 0, 50}}
			rev, st, from := choose(2, "order"), choose(2, "style"), choose(2, "from")
			for r := 0; r < 2; r++ {
				for i := range ips {
					if rev == 1 {
						i = len(ips) - 1 - i
					}
					a := announcement{ip: ips[i], style: byte(st), name: "n", ports: []byte{0xc0, 0x80}, swin: []byte{byte(i), 0}, swout: []byte{byte(i), byte(i + r)}, net: 1}
					src := net.UDPAddr{IP: a.ip, Port: 6454}
					if from == 1 || a.ip.Equal(ownIP) {
						src = host(77)
					}
					w.Inject(src, a.bytes())
					vrt.Quiesce()
					b.learn(a)
					b.check(c, a.ip.String())
				}
			}
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-same-address-twice", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "two successive replies of one node with 2 ports, each input, output or both, on one of 2 addresses (also the same one on both ports), then another node or none with one of these",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			port := func(a *announcement) {
				x := choose(12, "port")
				a.ports = append(a.ports, []byte{0x80, 0x40, 0xc0}[x/4])
				a.swin = append(a.swin, byte(1+x&1))
				a.swout = append(a.swout, byte(1+x>>1&1))
			}
			for i := 0; i < 2; i++ {
				a := announcement{ip: ip4(50), name: "n"}
				port(&a)
				port(&a)
				reply(w, a)
				vrt.Quiesce()
				b.learn(a)
				b.check(c, "after a reply")
			}
			if choose(2, "other") == 1 {
				reply(w, outNode(51, 1, 1))
				b.learn(outNode(51, 1, 1))
				vrt.Quiesce()
				b.check(c, "after the other node's reply")
			}
		}})

	// ---- C18, C19, C20: the same address on two ports ----

	for _, p := range []string{"C18", "C19", "C20"} {
		p := p
		scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-same-address-twice", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
			What: "a node with 2 to 4 outputs on one or two addresses (every combination), re-announced in every other combination while values are set, a frame interval, half of one or 300 ms apart",
			Run: func() {
				w := vnet.NewWorld()
				l := newLedger(w)
				c := startCtl(10)
				vrt.Sleep(33 * ms)
				combos := [][]byte{{1, 1}, {1, 2, 1}, {2, 1, 1, 2}, {1, 1, 1, 1}, {1, 2}, {2, 1}, {1}}
				gap := pick("gap", 50*ms, 100*ms, 300*ms)
				own := owners(outNode(50, 1, 2))
				has := func(us []byte, u byte) bool {
					for _, x := range us {
						if x == u {
							return true
						}
					}
					return false
				}
				was2 := false
				from2 := time.Duration(-1)
				start := vrt.Elapsed()
				var end2 time.Duration
				for i := 0; i < 3; i++ {
					us := combos[choose(len(combos), "ports")]
					if was2 && !has(us, 2) {
						l.dropped(uni(2))
						end2 = vrt.Elapsed()
					}
					reply(w, outNode(50, us...))
					vrt.Quiesce()
					if !was2 && has(us, 2) {
						from2 = vrt.Elapsed()
						end2 = 0
					}
					was2 = has(us, 2)
					l.set(c, 1, uni(1), false, false)
					l.set(c, 1, uni(2), false, !was2)
					vrt.Sleep(gap)
				}
				vrt.Sleep(900 * ms)
				vrt.Quiesce()
				switch p {
				case "C18":
					l.check(own, 100*ms, vrt.Elapsed())
					l.final(uni(1))
					if was2 {
						l.final(uni(2))
					}
				case "C19":
					rhythm(l, uni(1), 100*ms, start, vrt.Elapsed())
					if from2 >= 0 && end2 == 0 && l.epoch[uni(2)] == nil {
						rhythm(l, uni(2), 100*ms, from2, vrt.Elapsed())
					}
				case "C20":
					countUp(w, ip4(50), 5)
				}
			}})
	}
}

// countUp checks the sequence numbers of the ArtDmx packets sent to a node.
func countUp(w *vnet.World, ip net.IP, least byte) {
	want := byte(1)
	for _, d := range w.Sent {
		if op(d.Data) != 0x5000 || !d.To.IP.Equal(ip) {
			continue
		}
		if d.Data[12] != want {
			fail("sequence number %d, want %d", d.Data[12], want)
		}
		if want++; want == 0 {
			want = 1
		}
	}
	if want < least {
		fail("hardly anything was sent")
	}
}

func init() {
	for _, lg := range []time.Duration{30 * ms, 130 * ms, 260 * ms, 700 * ms} {
		for _, p := range []string{"C18", "C20"} {
			lg, p := lg, p
			scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-overtaking-" + lg.String(), Early: true, Linger: lg, StarveMax: 24, NoRestart: true, D: [2]int{0, 1}, Starve: [2]int{0, 1}, Policies: []int{vrt.OldestFirst},
				What: "values set every 100 ms, 70 ms or once, re-announcements in between or not, while one goroutine (each of the first 24, or all from the 5th or 7th on) waits " + lg.String() + " before each of its steps: order and wholeness only",
				Run: func() {
					w := vnet.NewWorld()
					vrt.Freeze()
					l := newLedger(w)
					c := startCtl(10)
					vrt.Sleep(33 * ms)
					base := outNode(50, 1, 2)
					reply(w, base)
					vrt.Quiesce()
					gap := pick("gap", 100*ms, 70*ms)
					once := choose(2, "once") == 1
					again := choose(2, "again") == 1
					vrt.Unfreeze()
					for i := 0; i < 8; i++ {
						if !once || i == 0 {
							l.set(c, 1, uni(1), false, false)
							l.set(c, 1, uni(2), false, false)
						}
						vrt.Sleep(gap)
						if again && i%2 == 0 {
							reply(w, base)
						}
					}
					vrt.Freeze()
					vrt.Sleep(800 * ms)
					vrt.Quiesce()
					if vrt.Elapsed() > 6*sec {
						return // the node may have been forgotten
					}
					if p == "C20" {
						countUp(w, ip4(50), 5)
						return
					}
					l.check(owners(base), 0, 0)
					l.final(uni(1))
					l.final(uni(2))
				}})
		}
	}
}

func init() {
	for _, p := range []string{"C10", "C11"} {
		p := p
		scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-relatives", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
			What: "packets from hosts that occur in the node's configuration: its bind IP, its broadcast addresses, hosts it answered, with or without a bind index, a listen IP and ports",
			Run: func() {
				w := vnet.NewWorld()
				custom := net.UDPAddr{IP: net.IP{10, 255, 255, 255}, Port: 6455}
				bc := defaultBroadcast
				var opts []artnet.NodeOption
				if choose(2, "broadcast") == 1 {
					bc = custom
					opts = append(opts, artnet.NodeBroadcastAddress(custom))
				}
				if choose(2, "listen") == 1 {
					opts = append(opts, artnet.NodeListenIP(ownIP))
				}
				n := artnet.NewNode("a node", pick("style", code.StNode, code.StController, code.StMedia), ownIP, quiet(), opts...)
				config(choose(4, "config"))(&n.Config)
				n.Config.BindIP = pick[net.IP]("bind", nil, net.IP{2, 0, 0, 9}, net.IP{2, 0, 0, 9}.To16(), ownIP)
				n.Config.BindIndex = byte(choose(2, "index") * 3)
				c := &collector{}
				n.RegisterCallback(code.OpDMX, c.cb("dmx"))
				if err := launch(n); err != nil {
					fail("Start: %v", err)
				}
				polls := 0
				var want [][]byte
				for r := 0; r < 2; r++ {
					for i, ip := range []net.IP{{2, 0, 0, 9}, {2, 255, 255, 255}, {10, 255, 255, 255}, {2, 0, 0, 2}, {0, 0, 0, 0}} {
						d := filled(kDMX, r*7+i+1)
						w.Inject(net.UDPAddr{IP: ip, Port: 6454}, poll())
						w.Inject(net.UDPAddr{IP: ip, Port: 6454 + i}, d)
						want = append(want, d)
						polls++
						vrt.Quiesce()
					}
				}
				if p == "C10" {
					checkReplies(w, 0, polls, expectReply(n.Config), bc, nil)
				}
				c.expect("dmx", want...)
			}})
	}
}

// The queue towards the socket is full of frames of one universe while the
// goroutine that empties it (or any other) is slow.
func init() {
	for _, lg := range []time.Duration{300 * ms, 1200 * ms} {
		for _, p := range []string{"C18", "C20"} {
			lg, p := lg, p
			scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-full-queue-" + lg.String(), Early: true, Linger: lg, StarveMax: 24, NoRestart: true, D: [2]int{0, 1}, Starve: [2]int{0, 1}, Policies: []int{vrt.OldestFirst},
				What: "one universe, or three, set for every frame of 20 or 40 a second while one goroutine (each of the first 24, or all from the 5th or 7th on) waits " + lg.String() + " before each of its steps, so that frames pile up, with failing writes or none: order and wholeness only",
				Run: func() {
					w := vnet.NewWorld()
					vrt.Freeze()
					l := newLedger(w)
					fps := pick("fps", 20, 40)
					c := startCtl(fps)
					vrt.Sleep(33 * ms)
					us := []byte{1}
					if choose(2, "three") == 1 {
						us = []byte{1, 2, 3}
					}
					base := outNode(50, us...)
					reply(w, base)
					vrt.Quiesce()
					if p == "C18" && choose(2, "errors") == 1 {
						n := 0
						w.WriteErr = func(*vnet.Datagram) error {
							if n++; n == 2 || n == 5 {
								return errNet
							}
							return nil
						}
					}
					vrt.Unfreeze()
					for i := 0; i < 16; i++ {
						for _, u := range us {
							l.set(c, 1, uni(u), false, false)
						}
						vrt.Sleep(sec / time.Duration(fps))
					}
					vrt.Freeze()
					vrt.Sleep(800 * ms)
					vrt.Quiesce()
					if vrt.Elapsed() > 6*sec {
						return // the node may have been forgotten
					}
					if p == "C20" {
						countUp(w, ip4(50), 1)
						return
					}
					l.check(owners(base), 0, 0)
					for _, u := range us {
						l.final(uni(u))
					}
				}})
		}
	}
}
