package main

import (
	"net"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/version"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// functions lists calls of the library's functions on values of their own.
func functions() (fs []func()) {
	add := func(f func()) { fs = append(fs, f) }
	for i, k := range ref.Kinds {
		k := k
		d := filled(k, i+1)
		e := filled(k, i+2)
		add(func() {
			for _, d := range [][]byte{d, e, d} {
				if p, err := packet.Unmarshal(d); err != nil || p.GetOpCode() != opc(k) {
					fail("harness: %v", err)
				}
			}
		})
		add(func() {
			p, err := packet.Unmarshal(d)
			if err != nil {
				fail("harness: %v", err)
			}
			p.MarshalBinary()
		})
	}
	all := func(f func(v byte)) {
		add(func() {
			for v := 0; v < 256; v++ {
				f(byte(v))
			}
		})
	}
	add(func() { packet.Unmarshal(nil) })
	add(func() { packet.Unmarshal([]byte("Art-Net\x00\x00\x21short")) })
	add(func() { packet.Unmarshal([]byte("Art-Net\x00\x00\x80\x00\x0eunimplemented")) })
	add(func() { packet.Unmarshal([]byte("Art-Net\x00\x11\x11\x00\x0eunknown")) })
	add(func() { packet.Unmarshal([]byte("Art-Nix\x00\x00\x20\x00\x0eno Art-Net")) })
	add(func() { packet.NewArtDMXPacket().MarshalBinary() })
	add(func() { packet.NewArtPollPacket().MarshalBinary() })
	all(func(v byte) { code.ValidOp(code.OpCode(v) << 8) })
	all(func(v byte) { _ = code.OpCode(uint16(v) << 8).String() })
	all(func(v byte) { code.ValidStyle(code.StyleCode(v)) })
	all(func(v byte) { _ = code.StyleCode(v).String() })
	all(func(v byte) { _ = code.PriorityCode(v).String() })
	all(func(v byte) { _ = code.NodeReportCode(v).String() })
	all(func(v byte) { _ = code.PortType(v).String() })
	all(func(v byte) { _ = code.PortType(v).WithType(code.PortType(v).Type()).WithInput(true).WithOutput(true) })
	all(func(v byte) { _ = code.GoodInput(v).String() })
	all(func(v byte) { _ = code.GoodOutput(v).String() })
	all(func(v byte) { _ = code.Status1(v).String() })
	all(func(v byte) {
		s := code.Status1(v)
		_ = s.WithPortAddr(s.PortAddr()).WithIndicator(s.Indicator()).WithRDM(true)
	})
	all(func(v byte) { _ = code.Status2(v).String() })
	all(func(v byte) { _ = code.Status2(v).WithDHCP(true).WithSwitch(false).Browser() })
	all(func(v byte) { _ = code.SwMacro(v).String() })
	all(func(v byte) { _ = code.SwRemote(v).String() })
	all(func(v byte) { _ = code.TalkToMe(v).String() })
	all(func(v byte) { _ = artnet.Address{Net: v, SubUni: v ^ 0x3f}.String() })
	all(func(v byte) { _ = artnet.Address{Net: v, SubUni: v}.Integer() })
	add(func() { version.Bytes() })
	cfg := func() artnet.NodeConfig {
		return artnet.NodeConfig{Name: "a", Description: "b", IP: net.IP{2, 0, 0, 9}, InputPorts: []artnet.InputPort{{Address: artnet.Address{SubUni: 1}}}, OutputPorts: []artnet.OutputPort{{Address: artnet.Address{SubUni: 2}}}}
	}
	add(func() { artnet.ArtPollReplyFromConfig(cfg()) })
	add(func() { _, _ = cfg().NumberOfPorts(), cfg().PortTypes() })
	add(func() {
		p := artnet.ArtPollReplyFromConfig(cfg())
		artnet.ConfigFromArtPollReply(*p)
	})
	add(func() {
		artnet.NewNode("n", code.StNode, net.IP{2, 0, 0, 7}, quiet(), artnet.NodeListenIP(net.IP{2, 0, 0, 7}), artnet.NodeBroadcastAddress(net.UDPAddr{IP: net.IP{2, 0, 0, 255}, Port: 6454}))
	})
	add(func() { artnet.NewNode("n", code.StController, net.IP{2, 0, 0, 7}, quiet()) })
	add(func() {
		artnet.NewController("c", net.IP{2, 0, 0, 7}, quiet(), artnet.MaxFPS(7), artnet.ListenIP(net.IP{2, 0, 0, 7}), artnet.BroadcastAddr(net.UDPAddr{IP: net.IP{2, 0, 0, 255}, Port: 6454}))
	})
	add(func() { artnet.NewController("c", net.IP{2, 0, 0, 7}, quiet()) })
	return
}

func init() {
	nf := len(functions())
	scn(&Scenario{Prop: "C22", Name: "c22-functions", NoStarve: true, NoRestart: true, NoLinger: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "two goroutines that call functions of the library on values of their own: every pair of 58 calls (decoding and encoding of each kind, decoding errors, code tables and flags, addresses, configurations, new nodes and controllers)",
		Run: func() {
			vnet.NewWorld()
			a := choose(nf, "first")
			b := choose(nf-a, "second")
			g := vrt.GoSys("first", functions()[a])
			h := vrt.GoSys("second", functions()[a+b])
			vrt.Join(g)
			vrt.Join(h)
		}})

	var mixed [][]byte
	for i, k := range ref.Kinds {
		mixed = append(mixed, filled(k, i+1))
	}
	scn(&Scenario{Prop: "C22", Name: "c22-several", D: [2]int{0, 1}, NoRestart: true,
		What: "two nodes and a controller, started by one or by three goroutines, get polls, ArtDmx packets, packets of all kinds or bad datagrams and are used and stopped, by one or by three goroutines",
		Run: func() {
			w := vnet.NewWorld()
			kind := choose(5, "traffic")
			apart := choose(2, "apart") == 1
			mk := func(i int) *artnet.Node {
				n := artnet.NewNode("a node", code.StNode, ip4(10+i), quiet(), artnet.NodeListenIP(ip4(10+i)))
				n.Config.BaseAddress = artnet.Address{Net: 1, SubUni: 0x20}
				n.Config.OutputPorts = []artnet.OutputPort{{Address: artnet.Address{Net: 1, SubUni: 0x21}}}
				n.Config.InputPorts = []artnet.InputPort{{Address: artnet.Address{Net: 1, SubUni: 0x22}}}
				for _, k := range []code.OpCode{code.OpDMX, code.OpSync, code.OpNzs, code.OpDiagData} {
					n.RegisterCallback(k, scribble)
				}
				return n
			}
			send := func() {
				switch kind {
				case 0:
					w.Inject(host(99), poll())
				case 1:
					w.Inject(host(99), filled(kDMX, 1))
					w.Inject(host(99), filled(kDMX, 2))
				case 2:
					for _, d := range mixed {
						w.Inject(host(99), d)
					}
				case 3:
					for i := 0; i < faults; i++ {
						fault(w, i)
					}
				case 4:
					reply(w, outNode(50, 1, 2))
					reply(w, outNode(51, 3))
				}
			}
			parts := []func(){}
			for i := 0; i < 2; i++ {
				i := i
				parts = append(parts, func() {
					n := mk(i)
					if err := n.Start(); err != nil {
						fail("Start: %v", err)
					}
					vrt.Sleep(250 * ms)
					n.Stop()
				})
			}
			parts = append(parts, func() {
				c := startCtl(10, artnet.ListenIP(ownIP))
				vrt.Sleep(120 * ms)
				c.SendDMXToAddress([512]byte{1}, uni(1))
				vrt.Sleep(130 * ms)
				c.Stop()
			})
			if apart {
				var gs []*vrt.G
				for _, f := range parts {
					gs = append(gs, vrt.GoSys("user", f))
				}
				vrt.Sleep(50 * ms)
				send()
				vrt.Sleep(100 * ms)
				send()
				for _, g := range gs {
					vrt.Join(g)
				}
			} else {
				a, b := mk(0), mk(1)
				for _, n := range []*artnet.Node{a, b} {
					if err := n.Start(); err != nil {
						fail("Start: %v", err)
					}
				}
				c := startCtl(10, artnet.ListenIP(ownIP))
				send()
				vrt.Sleep(120 * ms)
				c.SendDMXToAddress([512]byte{1}, uni(1))
				send()
				vrt.Sleep(120 * ms)
				a.Stop()
				send()
				c.Stop()
				b.Stop()
			}
			vrt.Quiesce()
		}})
}
