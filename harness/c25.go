package main

import (
	"net"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// place is where a node or controller has to listen and broadcast.
type place struct {
	listen, bc net.UDPAddr
	fps        int
}

// setting is an option together with what it has to change.
type setting struct {
	name string
	node artnet.NodeOption
	ctl  artnet.Option
	set  func(p *place)
	bad  bool // has to be refused
}

func settings() []setting {
	u := func(port int, ip ...byte) net.UDPAddr { return net.UDPAddr{IP: net.IP(ip), Port: port} }
	bc := func(name string, a net.UDPAddr) setting {
		return setting{name, artnet.NodeBroadcastAddress(a), artnet.BroadcastAddr(a), func(p *place) { p.bc = a }, false}
	}
	la := func(name string, a net.UDPAddr) setting {
		w := a
		if len(w.IP) == 0 {
			w.IP = net.IPv4zero
		}
		return setting{name, artnet.NodeListenAddress(a), artnet.ListenAddress(a), func(p *place) { p.listen = w }, false}
	}
	ip := func(name string, i net.IP) setting {
		w := net.UDPAddr{IP: i, Port: 6454}
		if len(i) == 0 {
			w.IP = net.IPv4zero
		}
		return setting{name, artnet.NodeListenIP(i), artnet.ListenIP(i), func(p *place) { p.listen = w }, false}
	}
	return []setting{
		bc("broadcast 10.255.255.255:6455", u(6455, 10, 255, 255, 255)),
		bc("broadcast 192.168.1.77:6454", net.UDPAddr{IP: net.IPv4(192, 168, 1, 77), Port: 6454}),
		la("listen 10.0.0.5:7000", u(7000, 10, 0, 0, 5)),
		la("listen :6999", u(6999)),
		ip("listen IP 192.168.1.9", net.IPv4(192, 168, 1, 9)),
		ip("listen IP 2.0.0.1", ownIP),
		ip("listen IP nil", nil),
	}
}

func ctlSettings() []setting {
	return append(settings(),
		setting{"MaxFPS 20", nil, artnet.MaxFPS(20), func(p *place) { p.fps = 20 }, false},
		setting{"MaxFPS 0", nil, artnet.MaxFPS(0), func(p *place) {}, true})
}

func defaultPlace() place {
	return place{listen: net.UDPAddr{IP: net.IPv4zero, Port: 6454}, bc: defaultBroadcast, fps: 1000}
}

// onlySocket demands that exactly one socket is open, at this address.
func onlySocket(w *vnet.World, want net.UDPAddr) *vnet.UDPConn {
	o := w.Open()
	if len(o) != 1 {
		fail("%d sockets are open, want one on %v", len(o), want.String())
	}
	if !sameAddr(o[0].Local, want) {
		fail("listens on %v, want %v", o[0].Local.String(), want.String())
	}
	return o[0]
}

func nodePlace(depth int) func() {
	return func() {
		w := vnet.NewWorld()
		st := settings()
		want := defaultPlace()
		var opts []setting
		for i := 0; i < depth; i++ {
			k := choose(len(st)+1, "option")
			if k == len(st) {
				break
			}
			opts = append(opts, st[k])
			st[k].set(&want)
		}
		early := choose(len(opts)+1, "given to the constructor")
		var no []artnet.NodeOption
		for _, s := range opts[:early] {
			no = append(no, s.node)
		}
		n := artnet.NewNode("a node", code.StNode, ownIP, quiet(), no...)
		config(1)(&n.Config)
		for _, s := range opts[early:] {
			if err := n.SetOption(s.node); err != nil {
				fail("option %s: %v", s.name, err)
			}
		}
		for round := 0; round < 2; round++ {
			if err := n.Start(); err != nil {
				fail("Start: %v", err)
			}
			s := onlySocket(w, want.listen)
			if n.Connection() != s {
				fail("Connection is not the socket in use")
			}
			vrt.Quiesce()
			mark := w.Mark()
			w.Inject(host(9), poll())
			vrt.Quiesce()
			checkReplies(w, mark, 1, expectReply(n.Config), want.bc, nil)
			for _, d := range w.Sent[mark:] {
				if d.Sock != s {
					fail("a packet left from another socket, at %v", d.Sock.Local.String())
				}
			}
			n.Stop()
			vrt.Quiesce()
			if !s.IsClosed() || len(w.Open()) != 0 {
				fail("a socket is left open after Stop")
			}
			if round == 0 {
				k := choose(len(st)+1, "option before the restart")
				if k < len(st) {
					if err := n.SetOption(st[k].node); err != nil {
						fail("option %s: %v", st[k].name, err)
					}
					st[k].set(&want)
				}
			}
		}
	}
}

func ctlPlace(depth int) func() {
	return func() {
		w := vnet.NewWorld()
		st := ctlSettings()
		want := defaultPlace()
		var opts []setting
		for i := 0; i < depth; i++ {
			k := choose(len(st)+1, "option")
			if k == len(st) {
				break
			}
			opts = append(opts, st[k])
			st[k].set(&want)
		}
		apply := func(c *artnet.Controller, s setting) {
			if err := c.SetOption(s.ctl); (err != nil) != s.bad {
				fail("option %s: %v", s.name, err)
			}
		}
		early := choose(len(opts)+1, "given to the constructor")
		var co []artnet.Option
		for _, s := range opts[:early] {
			co = append(co, s.ctl)
		}
		c := artnet.NewController("ctl", ownIP, quiet(), co...)
		for _, s := range opts[early:] {
			apply(c, s)
		}
		me := expectReply(artnet.NodeConfig{Name: "ctl", Type: code.StController, IP: ownIP})
		for round := 0; round < 2; round++ {
			mark := w.Mark()
			if err := c.Start(); err != nil {
				fail("Start: %v", err)
			}
			s := onlySocket(w, want.listen)
			vrt.Quiesce()
			w.Inject(net.UDPAddr{IP: net.IP{9, 9, 9, 9}, Port: 1234}, poll())
			// a node that announces another address than the one its reply comes from
			w.Inject(net.UDPAddr{IP: net.IP{10, 1, 2, 3}, Port: 5555}, announcement{ip: net.IP{10, 0, 0, 77}, name: "n", net: 1, sub: 2, ports: []byte{0x80}, swin: []byte{0}, swout: []byte{3}}.bytes())
			vrt.Quiesce()
			vrt.Sleep(1200 * ms / 20)
			vrt.Quiesce()
			var polls, replies, dmx int
			for _, d := range w.Sent[mark:] {
				to := want.bc
				switch op(d.Data) {
				case 0x2000:
					polls++
				case 0x2100:
					replies++
					if string(d.Data) != string(me) {
						fail("poll reply does not describe the controller: %s", diff(d.Data, me))
					}
				case 0x5000:
					dmx++
					to = net.UDPAddr{IP: net.IP{10, 0, 0, 77}, Port: 6454}
				default:
					fail("unexpected packet sent: %s", describe(d.Data))
				}
				if !sameAddr(d.To, to) {
					fail("%s sent to %v, want %v", describe(d.Data), d.To.String(), to.String())
				}
				if d.Sock != s {
					fail("a packet left from another socket, at %v", d.Sock.Local.String())
				}
			}
			if polls == 0 || replies == 0 || dmx == 0 {
				fail("sent %d polls, %d poll replies and %d ArtDmx packets, want some of each", polls, replies, dmx)
			}
			mustReturn("Stop", sec, c.Stop)
			if !s.IsClosed() || len(w.Open()) != 0 {
				fail("a socket is left open after Stop")
			}
			if round == 0 {
				k := choose(len(st)+1, "option before the restart")
				if k < len(st) {
					apply(c, st[k])
					st[k].set(&want)
				}
			}
		}
	}
}

func init() {
	scn(&Scenario{Prop: "C25", Name: "c25-node", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "every sequence of up to 3 of 7 node options, each split between constructor and SetOption, started, polled and stopped, then one more option (or none) and again",
		Run:  nodePlace(3)})
	scn(&Scenario{Prop: "C25", Name: "c25-node-schedules", D: [2]int{1, 2}, Starve: [2]int{1, 1},
		What: "the same with up to one option before the first start, all schedules within the bound",
		Run:  nodePlace(1)})
	scn(&Scenario{Prop: "C25", Name: "c25-controller", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "every sequence of up to 2 of 9 controller options (one of them refused), each split between constructor and SetOption, started, polled, answered and stopped, then one more option (or none) and again",
		Run:  ctlPlace(2)})
	scn(&Scenario{Prop: "C25", Name: "c25-controller-deep", NoStarve: true, D: [2]int{-1, 0}, Policies: []int{vrt.OldestFirst},
		What: "the same with up to 3 options before the first start",
		Run:  ctlPlace(3)})
	scn(&Scenario{Prop: "C25", Name: "c25-controller-schedules", D: [2]int{1, 1},
		What: "the same with up to one option before the first start, all schedules within the bound",
		Run:  ctlPlace(1)})
	scn(&Scenario{Prop: "C25", Name: "c25-neighbours", D: [2]int{0, 1},
		What: "two nodes and a controller side by side, each with one of 7 options or none, given early or late, started in two orders",
		Run:  neighbours})
}

// neighbours runs two nodes and a controller with options of their own side by side.
func neighbours() {
	w := vnet.NewWorld()
	st := settings()
	opt := func(kind string, p *place) (r []setting) {
		if k := choose(len(st)+1, kind); k < len(st) {
			st[k].set(p)
			r = append(r, st[k])
		}
		return
	}
	var want [3]place
	var so [3][]setting
	for i := range want {
		want[i] = defaultPlace()
		so[i] = opt("option", &want[i])
	}
	late := choose(2, "late") == 1
	var nodes [2]*artnet.Node
	mk := func(i int) {
		if late {
			nodes[i] = artnet.NewNode("a node", code.StNode, ip4(10+i), quiet())
			for _, s := range so[i] {
				nodes[i].SetOption(s.node)
			}
			return
		}
		var no []artnet.NodeOption
		for _, s := range so[i] {
			no = append(no, s.node)
		}
		nodes[i] = artnet.NewNode("a node", code.StNode, ip4(10+i), quiet(), no...)
	}
	mk(0)
	mk(1)
	var co []artnet.Option
	for _, s := range so[2] {
		co = append(co, s.ctl)
	}
	c := artnet.NewController("ctl", ip4(12), quiet(), co...)
	start := []func() error{nodes[0].Start, nodes[1].Start, c.Start}
	var socks [3]*vnet.UDPConn
	for _, i := range [][3]int{{0, 1, 2}, {2, 1, 0}}[choose(2, "order")] {
		w.HostIP = ip4(10 + i)
		if err := start[i](); err != nil {
			fail("Start: %v", err)
		}
		socks[i] = w.Socks[len(w.Socks)-1]
		if !sameAddr(socks[i].Local, want[i].listen) {
			fail("listens on %v, want %v", socks[i].Local.String(), want[i].listen.String())
		}
	}
	vrt.Quiesce()
	w.Inject(host(99), poll())
	vrt.Quiesce()
	var got [3]int
	for _, d := range w.Sent {
		for i := range socks {
			if d.Sock != socks[i] {
				continue
			}
			got[i]++
			if !sameAddr(d.To, want[i].bc) {
				fail("%s sent to %v, want %v", describe(d.Data), d.To.String(), want[i].bc.String())
			}
		}
	}
	for i := range got {
		if got[i] == 0 {
			fail("participant %d sent nothing", i)
		}
	}
	nodes[0].Stop()
	if !socks[0].IsClosed() || socks[1].IsClosed() || socks[2].IsClosed() {
		fail("stopping the first node closed %v %v %v", socks[0].IsClosed(), socks[1].IsClosed(), socks[2].IsClosed())
	}
	nodes[1].Stop()
	mustReturn("Stop", sec, c.Stop)
	if len(w.Open()) != 0 {
		fail("a socket is left open after Stop")
	}
}
