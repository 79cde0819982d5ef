package main

import (
	"net"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// stimulus is a datagram and whether it has to be answered.
type stimulus struct {
	name   string
	from   net.UDPAddr
	data   []byte
	answer bool
}

func stimuli() []stimulus {
	h := host(9)
	own := net.UDPAddr{IP: ownIP, Port: 6454}
	own16 := net.UDPAddr{IP: ownIP.To16(), Port: 4321}
	cut := poll()[:13]
	badID := poll()
	badID[3] = '_'
	oldVer := poll()
	oldVer[11] = 13
	newVer := poll()
	newVer[11] = 255
	unknown := poll()
	unknown[9] = 0x01
	swapped := poll()
	swapped[8], swapped[9] = swapped[9], swapped[8]
	prio := kPoll.Put(kPoll.Put(kPoll.New(), "TalkToMe", 0xff), "Priority", 0xe0)
	return []stimulus{
		{"poll", h, poll(), true},
		{"poll from another host and port", net.UDPAddr{IP: net.IP{192, 168, 1, 200}, Port: 1}, poll(), true},
		{"poll with trailing bytes", h, append(poll(), 1, 2, 3, 4, 5), true},
		{"poll all flags", h, prio, true},
		{"poll no flags", h, kPoll.New(), true},
		{"poll newer version", h, newVer, true},
		{"own poll", own, poll(), false},
		{"own poll, other form of the address", own16, poll(), false},
		{"short poll", h, cut, false},
		{"bad identifier", h, badID, false},
		{"old version", h, oldVer, false},
		{"unknown opcode", h, unknown, false},
		{"opcode bytes swapped", h, swapped, false},
		{"poll reply", h, announcement{ip: net.IP{2, 0, 0, 9}, ports: []byte{0x80}, swin: []byte{0}, swout: []byte{1}}.bytes(), false},
		{"dmx", h, filled(kDMX, 3), false},
		{"sync", h, kSync.New(), false},
		{"empty", h, nil, false},
	}
}

func ports(c *artnet.NodeConfig, which int) {
	in := func(sub byte, t code.PortType, s code.GoodInput) {
		c.InputPorts = append(c.InputPorts, artnet.InputPort{Address: artnet.Address{Net: c.BaseAddress.Net, SubUni: sub}, Type: t, Status: s})
	}
	out := func(sub byte, t code.PortType, s code.GoodOutput) {
		c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: c.BaseAddress.Net, SubUni: sub}, Type: t, Status: s})
	}
	b := c.BaseAddress.SubUni
	switch which {
	case 1:
		out(b|1, 0, 0x80)
	case 2:
		in(b|2, 5, 0x80)
		in(b|15, 1, 0x08)
	case 3:
		in(b|3, 0, 0x80)
		out(b|4, 0, 0x82)
		out(b|5, 2, 0)
		out(b|6, 5, 1)
		out(b|15, 0, 0xff)
	}
}

func config(which int) func(c *artnet.NodeConfig) {
	return func(c *artnet.NodeConfig) {
		switch which {
		case 0:
		case 1:
			c.BaseAddress = artnet.Address{Net: 0, SubUni: 0}
			ports(c, 1)
		case 2:
			c.BaseAddress = artnet.Address{Net: 3, SubUni: 0x20}
			c.Description = "a description"
			c.Manufacturer = "ZZ"
			c.OEM = 0x1234
			c.Version = 0x0203
			ports(c, 2)
		case 3:
			c.BaseAddress = artnet.Address{Net: 127, SubUni: 0xf0}
			c.Status1, c.Status2 = 0xd2, 0x0f
			c.BindIP, c.BindIndex = net.IP{2, 0, 0, 1}, 7
			c.Ethernet = net.HardwareAddr{1, 2, 3, 4, 5, 6}
			c.Report = []code.NodeReportCode{1, 2, 3}
			c.BiosVersion = 9
			ports(c, 3)
		}
	}
}

func startNode(style code.StyleCode, cfg int, log artnet.Logger, opts ...artnet.NodeOption) *artnet.Node {
	n := artnet.NewNode("a node", style, ownIP, log, opts...)
	config(cfg)(&n.Config)
	if err := launch(n); err != nil {
		fail("Start: %v", err)
	}
	return n
}

func init() {
	custom := net.UDPAddr{IP: net.IP{10, 255, 255, 255}, Port: 6455}
	styles := []code.StyleCode{code.StNode, code.StController, code.StMedia, code.StRoute, code.StBackup, code.StConfig, code.StVisual}

	scn(&Scenario{Prop: "C10", Name: "c10-sequences", D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "every sequence of 2 of 17 kinds of datagrams, delivered back to back or apart, to 4 port configurations",
		Run: func() {
			w := vnet.NewWorld()
			cfg := choose(4, "config")
			n := startNode(code.StNode, cfg, quiet())
			want := expectReply(n.Config)
			st := stimuli()
			apart := choose(2, "apart")
			count := 0
			for i := 0; i < 2; i++ {
				s := st[choose(len(st), "datagram")]
				w.Inject(s.from, s.data)
				if s.answer {
					count++
				}
				if apart == 1 {
					vrt.Quiesce()
					if i == 0 {
						checkReplies(w, 0, count, want, defaultBroadcast, nil)
					}
				}
			}
			vrt.Quiesce()
			checkReplies(w, 0, count, want, defaultBroadcast, nil)
			vrt.Sleep(20 * sec)
			vrt.Quiesce()
			checkReplies(w, 0, count, want, defaultBroadcast, nil)
		}})

	scn(&Scenario{Prop: "C10", Name: "c10-single-schedules", D: [2]int{2, 3},
		What: "each of 17 kinds of datagrams followed by a poll, all schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			n := startNode(code.StNode, 3, quiet())
			want := expectReply(n.Config)
			st := stimuli()
			s := st[choose(len(st), "datagram")]
			w.Inject(s.from, s.data)
			count := 1
			if s.answer {
				count++
			}
			w.Inject(host(8), poll())
			vrt.Quiesce()
			checkReplies(w, 0, count, want, defaultBroadcast, nil)
		}})

	scn(&Scenario{Prop: "C10", Name: "c10-options", D: [2]int{1, 1},
		What: "7 styles x broadcast option x listen options x 4 configurations; the configuration is changed after start; restart announces the new one",
		Run: func() {
			w := vnet.NewWorld()
			style := pick("style", styles...)
			bc := defaultBroadcast
			var opts []artnet.NodeOption
			if choose(2, "broadcast") == 1 {
				bc = custom
				opts = append(opts, artnet.NodeBroadcastAddress(custom))
			}
			wantLocal := net.UDPAddr{IP: net.IPv4zero, Port: 6454}
			switch choose(3, "listen") {
			case 1:
				opts = append(opts, artnet.NodeListenIP(ownIP))
				wantLocal.IP = ownIP
			case 2:
				wantLocal = net.UDPAddr{IP: ownIP, Port: 7777}
				opts = append(opts, artnet.NodeListenAddress(wantLocal))
			}
			n := startNode(style, choose(4, "config"), quiet(), opts...)
			want := expectReply(n.Config)
			if o := w.Open(); len(o) != 1 || !sameAddr(o[0].Local, wantLocal) {
				fail("after Start %d sockets are open, want one on %v", len(o), wantLocal.String())
			}
			vrt.Quiesce()
			n.Config.Name = "renamed"
			n.Config.BaseAddress.Net ^= 1
			n.Config.OutputPorts = append(n.Config.OutputPorts, artnet.OutputPort{})
			w.Inject(host(9), poll())
			w.Inject(host(9), poll())
			vrt.Quiesce()
			checkReplies(w, 0, 2, want, bc, nil)
			n.Config.OutputPorts = nil
			n.Config.InputPorts = nil
			n.Stop()
			vrt.Quiesce()
			if err := launch(n); err != nil {
				fail("Start again: %v", err)
			}
			w.Inject(host(9), poll())
			vrt.Quiesce()
			checkReplies(w, 2, 1, expectReply(n.Config), bc, nil)
		}})

	burst := func(sizes ...int) func() {
		return func() {
			w := vnet.NewWorld()
			n := startNode(code.StNode, 1, quiet())
			want := expectReply(n.Config)
			st := stimuli()
			size := pick("size", sizes...)
			mixed := choose(2, "mixed") == 1
			count := 0
			for i := 0; i < size; i++ {
				s := st[0]
				if mixed {
					s = st[(i*5)%len(st)]
				}
				w.Inject(s.from, s.data)
				if s.answer {
					count++
				}
			}
			vrt.Quiesce()
			checkReplies(w, 0, count, want, defaultBroadcast, nil)
		}
	}
	scn(&Scenario{Prop: "C10", Name: "c10-burst", Prune: true, D: [2]int{2, 3},
		What: "bursts of 3, 12, 25 and 45 polls mixed with other datagrams (pruned)",
		Run:  burst(3, 12, 25, 45)})
	scn(&Scenario{Prop: "C10", Name: "c10-burst-small", D: [2]int{2, 2},
		What: "bursts of 1 to 4 polls mixed with other datagrams",
		Run:  burst(1, 2, 3, 4)})

	scn(&Scenario{Prop: "C10", Name: "c10-spread", D: [2]int{0, 1},
		What: "60 polls over 30 s, alone and with a blocked DMX callback",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			want := expectReply(n.Config)
			step := pick("gap", 1*ms, 500*ms, 3*sec)
			for i := 0; i < 60; i++ {
				w.Inject(host(5+i%3), poll())
				vrt.Sleep(step)
			}
			vrt.Quiesce()
			checkReplies(w, 0, 60, want, defaultBroadcast, nil)
		}})

	ctl := func(sizes ...int) func() {
		return func() {
			w := vnet.NewWorld()
			bc := defaultBroadcast
			var opts []artnet.Option
			if choose(2, "broadcast") == 1 {
				bc = custom
				opts = append(opts, artnet.BroadcastAddr(custom))
			}
			opts = append(opts, artnet.MaxFPS(1))
			c := artnet.NewController("ctl", ownIP, quiet(), opts...)
			if err := launch(c); err != nil {
				fail("Start: %v", err)
			}
			want := expectReply(artnet.NodeConfig{Name: "ctl", Type: code.StController, IP: ownIP})
			st := stimuli()
			size := pick("size", sizes...)
			count := 1 // its own poll
			for i := 0; i < size; i++ {
				s := st[0]
				if i%3 == 2 {
					s = st[6+(i*5)%(len(st)-6)]
				}
				if s.name == "poll reply" {
					continue
				}
				w.Inject(s.from, s.data)
				if s.answer {
					count++
				}
			}
			vrt.Quiesce()
			checkReplies(w, 0, count, want, bc, func(d *vnet.Datagram) bool { return op(d.Data) == 0x2000 })
		}
	}
	scn(&Scenario{Prop: "C10", Name: "c10-controller", Prune: true, D: [2]int{2, 2},
		What: "a controller (default or own broadcast address) hit by bursts of 1, 4 and 20 polls and other datagrams (pruned)",
		Run:  ctl(1, 4, 20)})
	scn(&Scenario{Prop: "C10", Name: "c10-controller-small", D: [2]int{2, 2},
		What: "the same with bursts of 1 to 3",
		Run:  ctl(1, 2, 3)})
}
