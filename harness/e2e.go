package main

import (
	"bytes"
	"fmt"
	"net"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// ---- C24 ----

// peer is a node of the library in the routed network.
type peer struct {
	w    *vnet.World
	n    *artnet.Node
	ip   net.IP
	got  map[artnet.Address][512]byte
	cnt  map[artnet.Address]int
	odd  string
	outs []artnet.Address
}

func newPeer(w *vnet.World, k int, outs []artnet.Address, ins int) *peer {
	p := &peer{w: w, ip: ip4(k), got: map[artnet.Address][512]byte{}, cnt: map[artnet.Address]int{}, outs: outs}
	p.n = artnet.NewNode(fmt.Sprint("node ", k), code.StNode, p.ip, quiet())
	p.n.Config.Description = "a node of the library"
	p.n.Config.Ethernet = net.HardwareAddr{2, 0, 0, 0, 0, byte(k)}
	if len(outs) > 0 {
		p.n.Config.BaseAddress = artnet.Address{Net: outs[0].Net, SubUni: outs[0].SubUni & 0xf0}
	}
	for i, a := range outs {
		p.n.Config.OutputPorts = append(p.n.Config.OutputPorts, artnet.OutputPort{Address: a, Type: code.PortType(0), Status: code.GoodOutput(0x80 >> i)})
	}
	for i := 0; i < ins; i++ {
		a := p.n.Config.BaseAddress
		a.SubUni |= byte(15 - i)
		p.n.Config.InputPorts = append(p.n.Config.InputPorts, artnet.InputPort{Address: a, Type: code.PortType(0), Status: code.GoodInput(1 << i)})
	}
	p.n.RegisterCallback(code.OpDMX, func(x packet.ArtNetPacket) {
		d, ok := x.(*packet.ArtDMXPacket)
		if !ok {
			p.odd = fmt.Sprintf("the callback got a %T", x)
			return
		}
		a := artnet.Address{Net: d.Net, SubUni: d.SubUni}
		vrt.Note(uint64(a.Integer())<<8 | uint64(d.Sequence))
		p.got[a] = d.Data
		p.cnt[a]++
		if d.Length != 512 {
			p.odd = fmt.Sprintf("the callback got %d values", d.Length)
		}
	})
	return p
}

func (p *peer) start() {
	p.w.HostIP = p.ip
	if err := p.n.Start(); err != nil {
		fail("Start of node %v: %v", p.ip, err)
	}
}

func routed() *vnet.World {
	w := vnet.NewWorld()
	w.Route = true
	w.Broadcast = func(ip net.IP) bool { return ip.Equal(net.IP{2, 255, 255, 255}) || ip.Equal(net.IP{10, 255, 255, 255}) }
	return w
}

// knows demands that the controller knows exactly these nodes, with all ports.
func knows(c *artnet.Controller, when string, ps ...*peer) {
	if len(c.Nodes) != len(ps) {
		fail("%s: the controller knows %d nodes, want %d", when, len(c.Nodes), len(ps))
	}
	for _, p := range ps {
		n := known(c, p.ip)
		if n == nil {
			fail("%s: the controller does not know node %v", when, p.ip)
		}
		want := expectConfig(expectReply(p.n.Config))
		if m := sameConfig(n.Node, want); m != "" {
			fail("%s: node %v: %s", when, p.ip, m)
		}
		for _, o := range p.outs {
			if c.OutputAddress[o] != n {
				fail("%s: output address %v of node %v is not in the table", when, o, p.ip)
			}
		}
		for _, i := range p.n.Config.InputPorts {
			if c.InputAddress[i.Address] != n {
				fail("%s: input address %v of node %v is not in the table", when, i.Address, p.ip)
			}
		}
	}
	n, m := 0, 0
	for _, p := range ps {
		n += len(p.outs)
		m += len(p.n.Config.InputPorts)
	}
	if len(c.OutputAddress) != n || len(c.InputAddress) != m {
		fail("%s: %d output and %d input addresses known, want %d and %d", when, len(c.OutputAddress), len(c.InputAddress), n, m)
	}
}

// lightUp sets every output and demands that the values arrive.
func lightUp(c *artnet.Controller, round int, frame time.Duration, ps ...*peer) {
	for _, p := range ps {
		for _, o := range p.outs {
			c.SendDMXToAddress(payload(o, 1, round), o)
		}
	}
	vrt.Sleep(frame + 1*ms)
	vrt.Quiesce()
	for _, p := range ps {
		if p.odd != "" {
			fail("node %v: %s", p.ip, p.odd)
		}
		for _, o := range p.outs {
			want := payload(o, 1, round)
			g := p.got[o]
			if !bytes.Equal(g[:], want[:]) {
				fail("round %d: the values set for %v did not arrive at node %v (%d packets for it arrived)", round, o, p.ip, p.cnt[o])
			}
		}
		for a := range p.got {
			ok := false
			for _, o := range p.outs {
				ok = ok || o == a
			}
			if !ok {
				fail("node %v got ArtDmx packets for %v, which it does not output", p.ip, a)
			}
		}
	}
}

func addrRun(nt, sub byte, n int) (r []artnet.Address) {
	for i := 0; i < n; i++ {
		r = append(r, artnet.Address{Net: nt, SubUni: sub<<4 | byte(i*5+1)&0x0f})
	}
	return
}

func init() {
	scn(&Scenario{Prop: "C24", Name: "c24-layouts", D: [2]int{0, 0},
		What: "controller and 1 node: 0..4 outputs x 0, 2, 4 inputs x 6 nets/sub-nets x 4 start orders and delays; discovery, values in 2 rounds",
		Run: func() {
			w := routed()
			no, ni := choose(5, "outputs"), pick("inputs", 0, 2, 4)
			at := pick("address", [2]byte{0, 0}, [2]byte{0, 15}, [2]byte{1, 0}, [2]byte{5, 7}, [2]byte{127, 0}, [2]byte{127, 15})
			p := newPeer(w, 50, addrRun(at[0], at[1], no), ni)
			c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(10))
			startC := func() {
				w.HostIP = ownIP
				if err := c.Start(); err != nil {
					fail("Start: %v", err)
				}
			}
			switch choose(4, "order") {
			case 0:
				p.start()
				startC()
			case 1:
				startC()
				p.start()
			case 2:
				startC()
				vrt.Sleep(1700 * ms)
				p.start()
			case 3:
				p.start()
				vrt.Sleep(4 * sec)
				startC()
			}
			vrt.Sleep(3*sec + 1*ms)
			vrt.Quiesce()
			knows(c, "one poll interval after the start", p)
			lightUp(c, 1, 100*ms, p)
			lightUp(c, 2, 100*ms, p)
			mustReturn("Stop", 5*sec, c.Stop)
			mustReturn("Stop", 5*sec, p.n.Stop)
			vrt.Sleep(sec)
			noGoroutines("after both stops")
		}})

	scn(&Scenario{Prop: "C24", Name: "c24-two-nodes", D: [2]int{0, 1},
		What: "controller and 2 nodes with outputs in the same or different nets, all 6 start orders, at once or 700 ms apart; one node stops and starts again, or the controller does; default or own broadcast address",
		Run: func() {
			w := routed()
			vrt.Freeze()
			same := choose(2, "same net") == 1
			ps := []*peer{newPeer(w, 50, addrRun(2, 1, 3), 1), newPeer(w, 51, addrRun(3, 9, 2), 0)}
			if same {
				ps[1] = newPeer(w, 51, []artnet.Address{{Net: 2, SubUni: 0x12}, {Net: 2, SubUni: 0x13}}, 0)
			}
			opts := []artnet.Option{artnet.MaxFPS(5)}
			if choose(2, "broadcast") == 1 {
				b := net.UDPAddr{IP: net.IP{10, 255, 255, 255}, Port: 6454}
				opts = append(opts, artnet.BroadcastAddr(b))
				for _, p := range ps {
					p.n.SetOption(artnet.NodeBroadcastAddress(b))
				}
			}
			c := artnet.NewController("ctl", ownIP, quiet(), opts...)
			startC := func() {
				w.HostIP = ownIP
				if err := c.Start(); err != nil {
					fail("Start: %v", err)
				}
			}
			ord := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[choose(6, "order")]
			apart := choose(2, "apart") == 1
			what := choose(3, "restart")
			vrt.Unfreeze()
			for _, o := range ord {
				if o == 2 {
					startC()
				} else {
					ps[o].start()
				}
				if apart {
					vrt.Sleep(700 * ms)
				}
			}
			vrt.Sleep(3*sec + 1*ms)
			vrt.Quiesce()
			vrt.Freeze()
			knows(c, "one poll interval after the start", ps...)
			lightUp(c, 1, 200*ms, ps...)
			switch what {
			case 0:
				mustReturn("Stop", 5*sec, ps[0].n.Stop)
				t := vrt.Elapsed()
				vrt.Sleep(10 * sec)
				vrt.Quiesce()
				mark := w.Mark()
				vrt.Sleep(1 * sec)
				vrt.Quiesce()
				for _, d := range w.Sent[mark:] {
					if d.To.IP.Equal(ps[0].ip) {
						fail("sent to the stopped node %v after its stop: %s", d.At-t, describe(d.Data))
					}
				}
				knows(c, "11 s after one node stopped", ps[1])
				lightUp(c, 2, 200*ms, ps[1])
				vrt.Unfreeze()
				ps[0].start()
				vrt.Sleep(3*sec + 201*ms) // and the first frames
				vrt.Quiesce()
				vrt.Freeze()
				knows(c, "one poll interval after the restart", ps...)
				for _, o := range ps[0].outs {
					if g := ps[0].got[o]; !bytes.Equal(g[:], zeros[:]) {
						fail("after its restart the node gets old values for %v", o)
					}
				}
			case 1:
				mustReturn("Stop", 5*sec, c.Stop)
				vrt.Sleep(2 * sec)
				vrt.Unfreeze()
				startC()
				vrt.Sleep(3*sec + 1*ms)
				vrt.Quiesce()
				vrt.Freeze()
				knows(c, "one poll interval after the restart of the controller", ps...)
			case 2:
				vrt.Sleep(20 * sec)
				vrt.Quiesce()
				knows(c, "20 s later", ps...)
			}
			lightUp(c, 3, 200*ms, ps...)
			for _, p := range ps {
				mustReturn("Stop", 5*sec, p.n.Stop)
			}
			mustReturn("Stop", 5*sec, c.Stop)
		}})

	scn(&Scenario{Prop: "C24", Name: "c24-two-controllers", D: [2]int{1, 1},
		What: "2 controllers and a node: both learn the node, neither lists the other, values of either arrive",
		Run: func() {
			w := routed()
			p := newPeer(w, 50, addrRun(0, 0, 2), 0)
			cs := []*artnet.Controller{artnet.NewController("one", ip4(1), quiet(), artnet.MaxFPS(5)), artnet.NewController("two", ip4(2), quiet(), artnet.MaxFPS(4))}
			first := choose(3, "node starts")
			for i, c := range cs {
				if first == i {
					p.start()
				}
				w.HostIP = ip4(1 + i)
				if err := c.Start(); err != nil {
					fail("Start: %v", err)
				}
			}
			if first == 2 {
				p.start()
			}
			vrt.Sleep(3*sec + 1*ms)
			vrt.Quiesce()
			vrt.Freeze()
			for _, c := range cs {
				knows(c, "one poll interval after the start", p)
			}
			lightUp(cs[0], 1, 200*ms, p)
			for _, c := range cs {
				mustReturn("Stop", 5*sec, c.Stop)
			}
			mustReturn("Stop", 5*sec, p.n.Stop)
		}})
}
