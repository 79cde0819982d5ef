package main

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// changes are the contents in which replies of the same ports can differ.
func changes() (r []fieldValue) {
	for i := range kReply.Fields {
		f := &kReply.Fields[i]
		switch f.Name {
		case "IPAddress", "Port", "NetSwitch", "SubSwitch", "NumPorts", "PortTypes", "SwIn", "SwOut":
			continue
		case "Style":
			r = append(r, fieldValue{f.Name, []byte{1}}) // a controller
			continue
		case "ShortName", "LongName":
			r = append(r, fieldValue{f.Name, make([]byte, f.Size)}, fieldValue{f.Name, []byte("ctl\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00")})
			continue
		case "NodeReport":
			r = append(r, fieldValue{f.Name, []byte("#0005 [0007] not all is well")})
			continue
		case "BindIP":
			r = append(r, fieldValue{f.Name, ip4(7)})
		case "BindIndex":
			r = append(r, fieldValue{f.Name, []byte{1}}, fieldValue{f.Name, []byte{2}})
		}
		v, x := make([]byte, f.Size), make([]byte, f.Size)
		for k := range v {
			v[k] = byte(0x41 + k + i)
			x[k] = 0xff
		}
		r = append(r, fieldValue{f.Name, v}, fieldValue{f.Name, x})
	}
	return
}

func init() {
	for _, p := range []string{"C16", "C17", "C18", "C19", "C20"} {
		p := p
		scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-changed-field", NoStarve: true, D: [2]int{0, 0}, MaxSteps: 400000, Policies: []int{vrt.OldestFirst},
			What: "a node with set universes announces itself again with one field of its reply changed (each of 18 fields, 1 to 4 values), and as before again, 3 times over, every 0.7 or 6.8 s; or has that value from the first",
			Run: func() {
				w := vnet.NewWorld()
				vrt.Freeze()
				l := newLedger(w)
				c := startCtl(10)
				vrt.Sleep(10 * ms)
				base := outNode(50, 1, 2)
				other := base
				cs := changes()
				other.fields = cs[choose(len(cs), "change"):][:1]
				gap := pick("gap", 700*ms, 6800*ms)
				if choose(2, "from the first") == 1 {
					base = other
				}
				b := newBook()
				from := vrt.Elapsed()
				ann := func(a announcement) {
					reply(w, a)
					b.learn(a)
					vrt.Quiesce()
					switch p {
					case "C16":
						b.check(c, "after the reply")
					case "C17":
						if known(c, base.ip) == nil || len(c.Nodes) != 1 {
							fail("%d nodes known at %v", len(c.Nodes), vrt.Elapsed())
						}
					}
				}
				ann(base)
				for _, u := range []byte{1, 2} {
					l.set(c, 1, uni(u), false, false)
				}
				for i := 0; i < 3; i++ {
					vrt.Sleep(gap)
					if p == "C17" && known(c, base.ip) == nil {
						fail("forgotten at %v", vrt.Elapsed())
					}
					ann(other)
					vrt.Sleep(gap)
					if p == "C17" && known(c, base.ip) == nil {
						fail("forgotten at %v", vrt.Elapsed())
					}
					ann(base)
				}
				vrt.Sleep(400 * ms)
				vrt.Quiesce()
				switch p {
				case "C18":
					l.check(owners(base), 0, 0)
					l.final(uni(1))
					l.final(uni(2))
				case "C19":
					rhythm(l, uni(1), 100*ms, from, vrt.Elapsed())
					rhythm(l, uni(2), 100*ms, from, vrt.Elapsed())
				case "C20":
					countUp(w, base.ip, 5)
				}
			}})

		scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-twins", NoStarve: true, D: [2]int{0, 0}, MaxSteps: 400000, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
			What: "two nodes whose replies differ only in the IP and the universes (and the bind index, the bind IP or the MAC, or nothing else), the second found 2 s after the first; the first falls silent, or the second, or none",
			Run: func() {
				w := vnet.NewWorld()
				vrt.Freeze()
				l := newLedger(w)
				c := startCtl(10)
				vrt.Sleep(10 * ms)
				one, two := outNode(50, 1, 2), outNode(51, 3, 4)
				two.name = one.name
				switch choose(4, "also") {
				case 1:
					one.bind, two.bind = 1, 2
				case 2:
					one.fields = []fieldValue{{"BindIP", one.ip}}
					two.fields = one.fields
				case 3:
					one.fields = []fieldValue{{"Macaddress", []byte{1, 2, 3, 4, 5, 6}}}
					two.fields = one.fields
				}
				silent := 0
				if p != "C16" {
					silent = choose(3, "silent")
				}
				b := newBook()
				ann := func(a announcement) {
					reply(w, a)
					b.learn(a)
					vrt.Quiesce()
					if p == "C16" {
						b.check(c, "after the reply")
					}
				}
				from1 := vrt.Elapsed()
				ann(one)
				l.set(c, 1, uni(1), false, false)
				l.set(c, 1, uni(2), false, false)
				vrt.Sleep(2 * sec)
				from2 := vrt.Elapsed()
				ann(two)
				l.set(c, 1, uni(3), false, false)
				l.set(c, 1, uni(4), false, false)
				for i := 0; i < 6; i++ {
					vrt.Sleep(2 * sec)
					if silent != 1 {
						ann(one)
					}
					if silent != 2 {
						ann(two)
					}
					if i < 2 {
						for u := byte(1); u <= 4; u++ {
							l.set(c, 1, uni(u), false, false)
						}
					}
				}
				vrt.Quiesce()
				switch p {
				case "C17":
					if (known(c, one.ip) == nil) != (silent == 1) || (known(c, two.ip) == nil) != (silent == 2) {
						fail("node %d is silent; the nodes are known: %v, %v", silent, known(c, one.ip) != nil, known(c, two.ip) != nil)
					}
				case "C18":
					l.check(owners(one, two), 0, 0)
					for u := byte(1); u <= 4; u++ {
						l.final(uni(u))
					}
				case "C19":
					if silent != 1 {
						rhythm(l, uni(1), 100*ms, from1, vrt.Elapsed())
					}
					if silent != 2 {
						rhythm(l, uni(3), 100*ms, from2, vrt.Elapsed())
					}
				case "C20":
					countUp(w, one.ip, 5)
					countUp(w, two.ip, 5)
				}
			}})
	}

	scn(&Scenario{Prop: "C16", Name: "c16-port-counts", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "one device with 0..4 outputs and 0..4 inputs, as a node or a controller, then again with one of these numbers of ports",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(4)
			b := newBook()
			for i := 0; i < 2; i++ {
				outs, ins := choose(5, "outputs"), choose(5, "inputs")
				a := announcement{ip: ip4(50), name: "a device", style: byte(choose(2, "controller")), net: 1, sub: 2}
				for k := 0; k < max(outs, ins); k++ {
					t := byte(0)
					if k < outs {
						t |= 0x80
					}
					if k < ins {
						t |= 0x40
					}
					a.ports = append(a.ports, t)
					a.swout = append(a.swout, byte(k))
					a.swin = append(a.swin, byte(8+k))
				}
				a.numPorts = len(a.ports)
				reply(w, a)
				b.learn(a)
				vrt.Quiesce()
				b.check(c, fmt.Sprint("after reply ", i))
			}
		}})

	for _, p := range []string{"C15", "C16", "C17", "C19"} {
		p := p
		scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-multitude", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 4000000,
			What: "20, 70 or 300 nodes with a universe each; all stay, or all but one fall silent, or every second one does",
			Run: func() {
				w := vnet.NewWorld()
				n := pick("nodes", 20, 70, 300)
				who := choose(3, "silent")
				l := newLedger(w)
				c := startCtl(2)
				vrt.Sleep(10 * ms)
				b := newBook()
				node := func(i int) announcement { return outNode(300+i, byte(i%16)).at(byte(i/256), byte(i/16%16)) }
				stays := func(i int) bool { return who == 0 || who == 1 && i == n/2 || who == 2 && i%2 == 0 }
				for i := 0; i < n; i++ {
					reply(w, node(i))
					b.learn(node(i))
					if i%10 == 0 {
						vrt.Quiesce()
					}
				}
				vrt.Quiesce()
				from := vrt.Elapsed()
				if p == "C16" {
					b.check(c, "all there")
				}
				for r := 0; r < 5; r++ {
					vrt.Sleep(2800 * ms)
					for i := 0; i < n; i++ {
						if stays(i) {
							reply(w, node(i))
						}
					}
				}
				vrt.Quiesce()
				for i := 0; i < n; i++ {
					if !stays(i) {
						b.forget(node(i).ip)
					}
				}
				switch p {
				case "C15":
					cadence(w, 0, vrt.Elapsed(), defaultBroadcast, 0)
				case "C16", "C17":
					b.check(c, "at the end")
				case "C19":
					for i := 0; i < n; i++ {
						if stays(i) {
							for _, a := range node(i).addrs() {
								rhythm(l, a, 500*ms, from, vrt.Elapsed())
							}
						}
					}
				}
			}})
	}

	scn(&Scenario{Prop: "C19", Name: "c19-between-runs", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 400000,
		What: "3 runs of a controller with its own MaxFPS each (5 values, or none set before the run); one that is refused in between or not",
		Run: func() {
			w := vnet.NewWorld()
			c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(10))
			fps := 10
			for r := 0; r < 3; r++ {
				if f := pick("fps", 0, 1, 4, 10, 25, 44); f > 0 {
					if err := c.SetOption(artnet.MaxFPS(f)); err != nil {
						fail("MaxFPS(%d) is refused: %v", f, err)
					}
					fps = f
				}
				if r == 1 && choose(2, "refused") == 1 {
					if c.SetOption(artnet.MaxFPS(-1)) == nil {
						fail("MaxFPS(-1) is not refused")
					}
				}
				if err := c.Start(); err != nil {
					fail("Start: %v", err)
				}
				l := newLedger(w)
				l.untracked = true
				vrt.Sleep(10 * ms)
				reply(w, outNode(50, 1))
				vrt.Quiesce()
				from := vrt.Elapsed()
				for i := 0; i < 300; i++ {
					c.SendDMXToAddress([512]byte{byte(i)}, uni(1))
					vrt.Sleep(7 * ms)
				}
				iv := sec / time.Duration(fps)
				rhythm(l, uni(1), iv, from, vrt.Elapsed())
				if k := len(l.frames[uni(1)]); k < int(2*sec/iv)-2 {
					fail("%d frames in 2.1 s with a new value every 7 ms, MaxFPS %d", k, fps)
				}
				mustReturn("Stop", sec, c.Stop)
			}
		}})
}

func init() {
	for _, p := range []string{"C16", "C18", "C25"} {
		p := p
		scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-two-fields", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, MaxSteps: 400000, Policies: []int{vrt.OldestFirst},
			What: "a node whose reply has any two of 36 unusual contents in fields that are not about ports; a value is set for each of its universes",
			Run: func() {
				w := vnet.NewWorld()
				vrt.Freeze()
				l := newLedger(w)
				c := startCtl(10)
				vrt.Sleep(10 * ms)
				base := outNode(50, 1, 2)
				cs := changes()
				base.fields = []fieldValue{cs[choose(len(cs), "one")], cs[choose(len(cs), "other")]}
				b := newBook()
				reply(w, base)
				b.learn(base)
				vrt.Quiesce()
				if p == "C16" {
					b.check(c, "after the reply")
				}
				from := vrt.Elapsed()
				l.set(c, 1, uni(1), false, false)
				l.set(c, 1, uni(2), false, false)
				vrt.Sleep(350 * ms)
				reply(w, base)
				l.set(c, 1, uni(1), false, false)
				vrt.Sleep(350 * ms)
				vrt.Quiesce()
				l.check(owners(base), 100*ms, vrt.Elapsed())
				rhythm(l, uni(1), 100*ms, from, vrt.Elapsed())
				rhythm(l, uni(2), 100*ms, from, vrt.Elapsed())
			}})
	}

	scn(&Scenario{Prop: "C10", Name: "c10-odd-configurations", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "a node with any two of 40 unusual contents of its configuration; it is polled, and polled again after a restart",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			a := artnet.Address{Net: 3, SubUni: 0x20}
			n.Config.BaseAddress = a
			n.Config.OutputPorts = []artnet.OutputPort{{Address: a}}
			odd := []func(c *artnet.NodeConfig){
				func(c *artnet.NodeConfig) {},
				func(c *artnet.NodeConfig) { c.Name = "" },
				func(c *artnet.NodeConfig) { c.Name = "seventeen letters" },
				func(c *artnet.NodeConfig) { c.Name = " " },
				func(c *artnet.NodeConfig) { c.Name = "%s%d" },
				func(c *artnet.NodeConfig) { c.Description = strings.Repeat("long ", 12) },
				func(c *artnet.NodeConfig) { c.Description = c.Name },
				func(c *artnet.NodeConfig) { c.Manufacturer = "ab" },
				func(c *artnet.NodeConfig) { c.Manufacturer = "a" },
				func(c *artnet.NodeConfig) { c.OEM = 0xffff },
				func(c *artnet.NodeConfig) { c.OEM = 0x0100 },
				func(c *artnet.NodeConfig) { c.Version = 0xffff },
				func(c *artnet.NodeConfig) { c.Version = 14 },
				func(c *artnet.NodeConfig) { c.BiosVersion = 0xff },
				func(c *artnet.NodeConfig) { c.Ethernet = net.HardwareAddr{1, 2, 3, 4, 5, 6} },
				func(c *artnet.NodeConfig) { c.Ethernet = net.HardwareAddr{0xff, 0xff, 0xff, 0xff, 0xff, 0xff} },
				func(c *artnet.NodeConfig) { c.BindIP = ownIP },
				func(c *artnet.NodeConfig) { c.BindIP = ip4(9) },
				func(c *artnet.NodeConfig) { c.BindIP = net.IPv4(2, 0, 0, 9) },
				func(c *artnet.NodeConfig) { c.BindIndex = 1 },
				func(c *artnet.NodeConfig) { c.BindIndex = 0xff },
				func(c *artnet.NodeConfig) { c.Port = 6454 },
				func(c *artnet.NodeConfig) { c.Port = 0x1234 },
				func(c *artnet.NodeConfig) { c.Report = []code.NodeReportCode{code.RcPowerFail} },
				func(c *artnet.NodeConfig) { c.Report = []code.NodeReportCode{1, 2, 3, 4, 5} },
				func(c *artnet.NodeConfig) { c.Status1 = 0xff },
				func(c *artnet.NodeConfig) { c.Status1 = 0xe0 },
				func(c *artnet.NodeConfig) { c.Status2 = 0xff },
				func(c *artnet.NodeConfig) { c.Status2 = 8 },
				func(c *artnet.NodeConfig) { c.BaseAddress, c.OutputPorts = artnet.Address{}, nil },
				func(c *artnet.NodeConfig) { c.BaseAddress, c.OutputPorts = artnet.Address{Net: 127, SubUni: 0xf0}, nil },
				func(c *artnet.NodeConfig) { c.OutputPorts = []artnet.OutputPort{} },
				func(c *artnet.NodeConfig) { c.OutputPorts = make([]artnet.OutputPort, 4, 9) },
				func(c *artnet.NodeConfig) { c.InputPorts = []artnet.InputPort{{Address: a}} },
				func(c *artnet.NodeConfig) {
					c.InputPorts = []artnet.InputPort{{Address: a}, {Address: a}, {Address: a}}
				},
				func(c *artnet.NodeConfig) { c.Type = code.StMedia },
				func(c *artnet.NodeConfig) { c.Type = code.StController },
				func(c *artnet.NodeConfig) { c.Type = 6 },
			}
			odd[choose(len(odd), "one")](&n.Config)
			odd[choose(len(odd), "other")](&n.Config)
			for i := 0; i < 2; i++ {
				if err := n.Start(); err != nil {
					fail("Start: %v", err)
				}
				mark := len(w.Sent)
				w.Inject(host(9), poll())
				vrt.Quiesce()
				if k := len(w.Sent) - mark; k != 1 {
					fail("%d replies to a poll", k)
				}
				if d, want := w.Sent[mark], expectReply(n.Config); !bytes.Equal(d.Data, want) || !sameAddr(d.To, defaultBroadcast) {
					fail("poll reply to %v does not describe the node: %s", d.To.String(), diff(d.Data, want))
				}
				mustReturn("Stop", sec, n.Stop)
			}
		}})
}
