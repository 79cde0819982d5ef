package main

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"strings"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/pure/ref"
)

func cstr(b []byte) string {
	var r []rune
	for _, x := range b {
		if x == 0 {
			break
		}
		r = append(r, rune(x))
	}
	return string(r)
}

// learned checks a configuration against the poll reply datagram it was read
// from (C07).
func learned(c *ctx, d []byte, got artnet.NodeConfig) {
	k := ref.ByName("ArtPollReply")
	g := func(f string) []byte { return k.Get(d, f) }
	u16 := func(f string) uint16 { b := g(f); return uint16(b[0])<<8 | uint16(b[1]) }
	eq := func(what string, got, want any) {
		if !reflect.DeepEqual(got, want) {
			c.fail("%s = %v, announced %v", what, got, want)
		}
	}
	eq("OEM", got.OEM, u16("Oem"))
	eq("Version", got.Version, u16("VersionInfo"))
	eq("BiosVersion", got.BiosVersion, g("UBEAVersion")[0])
	eq("Manufacturer", got.Manufacturer, cstr(g("ESTAmanufacturer")))
	eq("Type", byte(got.Type), g("Style")[0])
	eq("Name", got.Name, cstr(g("ShortName")))
	eq("Description", got.Description, cstr(g("LongName")))
	eq("Ethernet", []byte(got.Ethernet), g("Macaddress"))
	eq("IP", []byte(got.IP.To4()), g("IPAddress"))
	eq("BindIP", []byte(got.BindIP.To4()), g("BindIP"))
	eq("BindIndex", got.BindIndex, g("BindIndex")[0])
	eq("Port", got.Port, uint16(6454))
	eq("Report", ref.Bytes(reflect.ValueOf(got.Report)), g("NodeReport"))
	eq("Status1", byte(got.Status1), g("Status1")[0])
	eq("Status2", byte(got.Status2), g("Status2")[0])
	netw := g("NetSwitch")[0] & 0x7f
	sub := g("SubSwitch")[0] & 0x0f << 4
	eq("BaseAddress", got.BaseAddress, artnet.Address{Net: netw, SubUni: sub})
	n := int(u16("NumPorts"))
	if n > 4 {
		n = 4
	}
	in, out := 0, 0
	for i := 0; i < n; i++ {
		t := g("PortTypes")[i]
		if t&0x80 != 0 {
			if out >= len(got.OutputPorts) {
				c.fail("%d output ports, channel %d is an output too", out, i)
			}
			p := got.OutputPorts[out]
			eq(fmt.Sprintf("address of output port %d", out), p.Address, artnet.Address{Net: netw, SubUni: sub | g("SwOut")[i]&15})
			eq(fmt.Sprintf("type of output port %d", out), byte(p.Type), t)
			eq(fmt.Sprintf("status of output port %d", out), byte(p.Status), g("GoodOutput")[i])
			out++
		}
		if t&0x40 != 0 {
			if in >= len(got.InputPorts) {
				c.fail("%d input ports, channel %d is an input too", in, i)
			}
			p := got.InputPorts[in]
			eq(fmt.Sprintf("address of input port %d", in), p.Address, artnet.Address{Net: netw, SubUni: sub | g("SwIn")[i]&15})
			eq(fmt.Sprintf("type of input port %d", in), byte(p.Type), t)
			eq(fmt.Sprintf("status of input port %d", in), byte(p.Status), g("GoodInput")[i])
			in++
		}
	}
	if out != len(got.OutputPorts) || in != len(got.InputPorts) {
		c.fail("%d outputs and %d inputs announced, %d and %d learned", out, in, len(got.OutputPorts), len(got.InputPorts))
	}
}

func learn(c *ctx, d []byte) {
	ev(1)
	c.in = d
	p := packet.NewArtPollReplyPacket()
	if err := p.UnmarshalBinary(d); err != nil {
		c.fail("poll reply rejected: %v", err)
	}
	before := *p
	cfg := artnet.ConfigFromArtPollReply(*p)
	if !reflect.DeepEqual(before, *p) {
		c.fail("reading the reply changed it")
	}
	learned(c, d, cfg)
}

// announce builds, encodes, decodes and reads back (C08).
func announce(c *ctx, cfg artnet.NodeConfig) {
	ev(1)
	c.what = fmt.Sprintf("%+v", cfg)
	keep := clone(cfg)
	p := artnet.ArtPollReplyFromConfig(cfg)
	if !reflect.DeepEqual(keep, clone(cfg)) {
		c.fail("building the reply changed the configuration")
	}
	np := len(cfg.InputPorts)
	if len(cfg.OutputPorts) > np {
		np = len(cfg.OutputPorts)
	}
	if int(cfg.NumberOfPorts()) != np || int(p.NumPorts) != np {
		c.fail("%d ports announced, want %d", p.NumPorts, np)
	}
	b, err := p.MarshalBinary()
	if err != nil {
		c.fail("encoding: %v", err)
	}
	c.in = b
	q, err := packet.Unmarshal(b)
	if err != nil {
		c.fail("decoding the announcement: %v", err)
	}
	r, ok := q.(*packet.ArtPollReplyPacket)
	if !ok {
		c.fail("decoded as %T", q)
	}
	got := artnet.ConfigFromArtPollReply(*r)
	eq := func(what string, got, want any) {
		if !reflect.DeepEqual(got, want) {
			c.fail("%s = %v, announced %v", what, got, want)
		}
	}
	v4 := func(ip net.IP) []byte {
		if x := ip.To4(); x != nil {
			return x
		}
		return []byte{0, 0, 0, 0}
	}
	eq("OEM", got.OEM, cfg.OEM)
	eq("Version", got.Version, cfg.Version)
	eq("BiosVersion", got.BiosVersion, cfg.BiosVersion)
	eq("Manufacturer", got.Manufacturer, cfg.Manufacturer)
	eq("Type", got.Type, cfg.Type)
	eq("Name", got.Name, cfg.Name)
	eq("Description", got.Description, cfg.Description)
	mac := make([]byte, 6)
	copy(mac, cfg.Ethernet)
	eq("Ethernet", []byte(got.Ethernet), mac)
	eq("IP", v4(got.IP), v4(cfg.IP))
	eq("BindIP", v4(got.BindIP), v4(cfg.BindIP))
	eq("BindIndex", got.BindIndex, cfg.BindIndex)
	rep := make([]code.NodeReportCode, 64)
	copy(rep, cfg.Report)
	eq("Report", append([]code.NodeReportCode(nil), got.Report...), rep)
	eq("Status1", got.Status1, cfg.Status1)
	eq("Status2", got.Status2, cfg.Status2)
	eq("BaseAddress", got.BaseAddress, cfg.BaseAddress)
	eq("number of output ports", len(got.OutputPorts), len(cfg.OutputPorts))
	eq("number of input ports", len(got.InputPorts), len(cfg.InputPorts))
	for i, p := range cfg.OutputPorts {
		g := got.OutputPorts[i]
		eq(fmt.Sprintf("address of output port %d", i), g.Address, p.Address)
		eq(fmt.Sprintf("type of output port %d", i), g.Type.Type(), p.Type.Type())
		eq(fmt.Sprintf("direction of output port %d", i), g.Type.Output(), true)
		eq(fmt.Sprintf("input flag of output port %d", i), g.Type.Input(), i < len(cfg.InputPorts))
		eq(fmt.Sprintf("status of output port %d", i), g.Status, p.Status)
	}
	for i, p := range cfg.InputPorts {
		g := got.InputPorts[i]
		eq(fmt.Sprintf("address of input port %d", i), g.Address, p.Address)
		eq(fmt.Sprintf("type of input port %d", i), g.Type.Type(), p.Type.Type())
		eq(fmt.Sprintf("direction of input port %d", i), g.Type.Input(), true)
		eq(fmt.Sprintf("output flag of input port %d", i), g.Type.Output(), i < len(cfg.OutputPorts))
		eq(fmt.Sprintf("status of input port %d", i), g.Status, p.Status)
	}
}

func clone(c artnet.NodeConfig) artnet.NodeConfig {
	c.Ethernet = append(net.HardwareAddr(nil), c.Ethernet...)
	c.IP = append(net.IP(nil), c.IP...)
	c.BindIP = append(net.IP(nil), c.BindIP...)
	c.Report = append([]code.NodeReportCode(nil), c.Report...)
	c.InputPorts = append([]artnet.InputPort(nil), c.InputPorts...)
	c.OutputPorts = append([]artnet.OutputPort(nil), c.OutputPorts...)
	return c
}

// cfgBase is a configuration with in inputs and out outputs.
func cfgBase(in, out int, seed int) artnet.NodeConfig {
	cfg := artnet.NodeConfig{
		OEM: 0x1234 + uint16(seed)*257, Version: 0x0e01 + uint16(seed), BiosVersion: byte(seed), Manufacturer: "zz", Type: code.StNode,
		Name: fmt.Sprint("node", seed), Description: fmt.Sprint("a node number ", seed),
		Ethernet: net.HardwareAddr{1, 2, 3, 4, 5, byte(seed)}, IP: net.IP{2, 3, 4, byte(5 + seed)}, BindIP: net.IP{2, 3, 4, 6},
		BindIndex: byte(1 + seed), Port: 6454, Status1: 0xd2, Status2: 0x0d,
		Report:      []code.NodeReportCode{1, 2, code.NodeReportCode(seed)},
		BaseAddress: artnet.Address{Net: 0x12, SubUni: 0x30},
	}
	for i := 0; i < in; i++ {
		cfg.InputPorts = append(cfg.InputPorts, artnet.InputPort{Address: artnet.Address{Net: 0x12, SubUni: byte(0x31 + i)}, Type: code.PortType(0).WithInput(true), Status: code.GoodInput(0x80 + i)})
	}
	for i := 0; i < out; i++ {
		cfg.OutputPorts = append(cfg.OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: 0x12, SubUni: byte(0x3a + i)}, Type: code.PortType(0).WithOutput(true), Status: code.GoodOutput(0x40 + i)})
	}
	if in == 0 {
		cfg.InputPorts = nil
	}
	if out == 0 {
		cfg.OutputPorts = nil
	}
	return cfg
}

// tweaks set a field of a configuration to an extreme value.
var tweaks = []func(*artnet.NodeConfig){
	func(c *artnet.NodeConfig) { c.OEM = 0 },
	func(c *artnet.NodeConfig) { c.OEM = 0xffff },
	func(c *artnet.NodeConfig) { c.Version = 0 },
	func(c *artnet.NodeConfig) { c.Version = 0xffff },
	func(c *artnet.NodeConfig) { c.BiosVersion = 255 },
	func(c *artnet.NodeConfig) { c.Manufacturer = "" },
	func(c *artnet.NodeConfig) { c.Type = code.StController },
	func(c *artnet.NodeConfig) { c.Type = code.StVisual },
	func(c *artnet.NodeConfig) { c.Name = "" },
	func(c *artnet.NodeConfig) { c.Description = "" },
	func(c *artnet.NodeConfig) { c.Name, c.Description = "same", "same" },
	func(c *artnet.NodeConfig) { c.Ethernet = nil },
	func(c *artnet.NodeConfig) { c.Ethernet = net.HardwareAddr{0xff, 0xff, 0xff, 0xff, 0xff, 0xff} },
	func(c *artnet.NodeConfig) { c.IP = nil },
	func(c *artnet.NodeConfig) { c.IP = net.IPv4(255, 255, 255, 255) },
	func(c *artnet.NodeConfig) { c.IP = net.IPv4(127, 0, 0, 1) },
	func(c *artnet.NodeConfig) { c.BindIP = nil },
	func(c *artnet.NodeConfig) { c.BindIP = net.IPv4zero },
	func(c *artnet.NodeConfig) { c.BindIP = append(net.IP(nil), c.IP...) },
	func(c *artnet.NodeConfig) { c.BindIndex = 0 },
	func(c *artnet.NodeConfig) { c.BindIndex = 255 },
	func(c *artnet.NodeConfig) { c.Port = 0 },
	func(c *artnet.NodeConfig) { c.Port = 6455 },
	func(c *artnet.NodeConfig) { c.Report = nil },
	func(c *artnet.NodeConfig) { c.Status1 = 0 },
	func(c *artnet.NodeConfig) { c.Status1 = 0xff },
	func(c *artnet.NodeConfig) { c.Status2 = 0 },
	func(c *artnet.NodeConfig) { c.Status2 = 0xff },
	func(c *artnet.NodeConfig) { rebase(c, 0, 0) },
	func(c *artnet.NodeConfig) { rebase(c, 127, 0xf0) },
	func(c *artnet.NodeConfig) { rebase(c, 0, 0xf0) },
	func(c *artnet.NodeConfig) { c.InputPorts = nil },
	func(c *artnet.NodeConfig) { c.OutputPorts = nil },
	func(c *artnet.NodeConfig) {
		for i := range c.InputPorts {
			c.InputPorts[i].Status = 0
		}
	},
	func(c *artnet.NodeConfig) {
		for i := range c.OutputPorts {
			c.OutputPorts[i].Status = 0
		}
	},
	func(c *artnet.NodeConfig) {
		for i := range c.InputPorts {
			c.InputPorts[i].Type = 0
		}
	},
	func(c *artnet.NodeConfig) {
		for i := range c.OutputPorts {
			c.OutputPorts[i].Type = 0
		}
	},
}

func rebase(c *artnet.NodeConfig, n, s byte) {
	c.BaseAddress = artnet.Address{Net: n, SubUni: s}
	for i := range c.InputPorts {
		a := &c.InputPorts[i].Address
		a.Net, a.SubUni = n, s|a.SubUni&15
	}
	for i := range c.OutputPorts {
		a := &c.OutputPorts[i].Address
		a.Net, a.SubUni = n, s|a.SubUni&15
	}
}

func init() {
	k := ref.ByName("ArtPollReply")
	checks = append(checks, check{"C07", func(th bool) []space {
		full := func(seed int) []byte {
			d := fill(k, seed)
			k.Put(d, "NumPorts", 0, 4)
			k.Put(d, "PortTypes", 0xc0, 0x80, 0x45, 0xc1)
			return d
		}
		sp := []space{
			{"net switch x sub switch, all 65536", 65536, func(c *ctx, i int) {
				for s := 0; s < 2; s++ {
					d := full(1 + s)
					k.Put(d, "NetSwitch", byte(i>>8))
					k.Put(d, "SubSwitch", byte(i))
					learn(c, d)
				}
			}},
			{"sub switch x each channel's input and output switch", 65536, func(c *ctx, i int) {
				d := full(3)
				k.Put(d, "SubSwitch", byte(i>>8))
				for ch := 0; ch < 4; ch++ {
					for _, f := range []string{"SwIn", "SwOut"} {
						e := append([]byte(nil), d...)
						e[k.Field(f).Off+ch] = byte(i)
						learn(c, e)
					}
				}
			}},
			{"input and output switch of a channel, all 65536", 65536, func(c *ctx, i int) {
				for ch := 0; ch < 4; ch++ {
					d := full(2)
					k.Put(d, "PortTypes", 0xc0, 0xc0, 0xc0, 0xc0)
					d[k.Field("SwIn").Off+ch], d[k.Field("SwOut").Off+ch] = byte(i), byte(i>>8)
					learn(c, d)
				}
			}},
			{"port counts 0..65535", 65536, func(c *ctx, i int) {
				d := full(1)
				k.Put(d, "NumPorts", byte(i>>8), byte(i))
				learn(c, d)
			}},
			{"port counts 0..6 x direction flags of four channels x 3 protocol types", 7 * 256, func(c *ctx, i int) {
				for t := 0; t < 3; t++ {
					d := full(t + 1)
					k.Put(d, "NumPorts", 0, byte(i/256))
					for ch := 0; ch < 4; ch++ {
						d[k.Field("PortTypes").Off+ch] = byte(i>>(2*ch)&3)<<6 | byte((t*ch+t)%6)
					}
					learn(c, d)
				}
			}},
			{"each byte of the reply, all values", len(k.New()), func(c *ctx, i int) {
				if i < 10 || i == 14 || i == 15 {
					return
				}
				for s := 1; s < 1+nseeds(th); s++ {
					for v := 0; v < 256; v++ {
						if i == 200 && v > 6 {
							continue
						}
						d := full(s)
						d[i] = byte(v)
						learn(c, d)
					}
				}
			}},
			fieldSets("whole-field extremes of all pairs and triples of fields", th, func(c *ctx, d []byte) {
				if op := uint16(d[8]) | uint16(d[9])<<8; op == k.Op {
					learn(c, d)
				}
			}),
			{"equal and unequal switches of all four channels, all directions", 256 * 256, func(c *ctx, i int) {
				d := full(1)
				k.Put(d, "NumPorts", 0, 4)
				for ch := 0; ch < 4; ch++ {
					d[k.Field("PortTypes").Off+ch] = byte(i>>(2*ch)&3) << 6
					d[k.Field("SwOut").Off+ch] = byte(i >> (8 + 2*ch) & 3)
					d[k.Field("SwIn").Off+ch] = byte(i >> (14 - 2*ch) & 3)
				}
				learn(c, d)
			}},
			{"names of every length, zero byte at every position", 18 + 64 + 2, func(c *ctx, i int) {
				d := full(1)
				switch {
				case i < 18:
					d[26+i] = 0
				case i < 82:
					d[44+i-18] = 0
				default:
					d[24+i-82] = 0
				}
				learn(c, d)
				for j := 0; j < 64; j++ {
					d[44+j] = byte(0x80 + j)
				}
				learn(c, d)
			}},
			{"one configuration is not touched by reading another", 16, func(c *ctx, i int) {
				a, b := full(1+i/4), full(5+i%4)
				var pa, pb packet.ArtPollReplyPacket
				if pa.UnmarshalBinary(a) != nil || pb.UnmarshalBinary(b) != nil {
					c.fail("rejected")
				}
				ca := artnet.ConfigFromArtPollReply(pa)
				cb := artnet.ConfigFromArtPollReply(pb)
				pa, pb = packet.ArtPollReplyPacket{}, packet.ArtPollReplyPacket{}
				ev(2)
				learned(c, a, ca)
				learned(c, b, cb)
			}},
		}
		if th {
			sp = append(sp, space{"all direction bytes of two channels x counts", 65536, func(c *ctx, i int) {
				for n := 0; n < 6; n++ {
					for _, ch := range [][2]int{{0, 1}, {1, 3}, {2, 3}} {
						d := full(n + 1)
						k.Put(d, "NumPorts", 0, byte(n))
						o := k.Field("PortTypes").Off
						d[o+ch[0]], d[o+ch[1]] = byte(i), byte(i>>8)
						learn(c, d)
					}
				}
			}}, space{"net x sub x output switch of channel 0, all 2^24", 65536, func(c *ctx, i int) {
				for v := 0; v < 256; v++ {
					d := full(2)
					k.Put(d, "NetSwitch", byte(i>>8))
					k.Put(d, "SubSwitch", byte(i))
					d[k.Field("SwOut").Off] = byte(v)
					learn(c, d)
				}
			}})
		}
		return sp
	}})

	checks = append(checks, check{"C08", func(th bool) []space {
		ip16 := net.IPv4(10, 1, 2, 3)
		sp := []space{
			{"port counts 0..4 x 0..4, 4 contents, 3 styles", 25, func(c *ctx, i int) {
				for s := 0; s < 4; s++ {
					for st := 0; st < 3; st++ {
						cfg := cfgBase(i/5, i%5, s)
						cfg.Type = code.StyleCode(st)
						announce(c, cfg)
					}
				}
			}},
			{"base addresses: net 0..127 x sub-net 0..15 x universes of all ports", 128 * 16 * 16, func(c *ctx, i int) {
				a := artnet.Address{Net: byte(i >> 8), SubUni: byte(i) & 0xf0}
				cfg := cfgBase(4, 4, 1)
				cfg.BaseAddress = a
				for j := range cfg.InputPorts {
					cfg.InputPorts[j].Address = artnet.Address{Net: a.Net, SubUni: a.SubUni | byte(i+j*5)&15}
					cfg.OutputPorts[j].Address = artnet.Address{Net: a.Net, SubUni: a.SubUni | byte(i*3+j)&15}
				}
				announce(c, cfg)
			}},
			{"configurations that no reply can carry in full (ports of another net or sub-net, more than 4 ports, long names and reports): the configuration stays as it is", 8 * 128, func(c *ctx, i int) {
				for s := 0; s < 3; s++ {
					cfg := cfgBase(4, 4, s)
					if i&1 != 0 {
						for j := range cfg.InputPorts {
							cfg.InputPorts[j].Address = artnet.Address{Net: byte(i + j), SubUni: byte(i*7 + j*37)}
						}
					}
					if i&2 != 0 {
						for j := range cfg.OutputPorts {
							cfg.OutputPorts[j].Address = artnet.Address{Net: byte(i*3 + j), SubUni: byte(i*5 + j*41)}
						}
					}
					if i&4 != 0 {
						for j := range cfg.OutputPorts {
							cfg.OutputPorts[j].Type, cfg.InputPorts[j].Type = code.PortType(i+j*11), code.PortType(i*3+j*13)
						}
					}
					cfg.BaseAddress = artnet.Address{Net: byte(i), SubUni: byte(i * 11)}
					if i&8 != 0 {
						cfg.InputPorts = append(cfg.InputPorts, cfg.InputPorts...)
						cfg.OutputPorts = append(cfg.OutputPorts, cfg.OutputPorts...)
					}
					if i&16 != 0 {
						cfg.Name, cfg.Description, cfg.Manufacturer = strings.Repeat("n", 40), strings.Repeat("d", 90), "many"
					}
					if i&32 != 0 {
						cfg.Report = make([]code.NodeReportCode, 80)
						for j := range cfg.Report {
							cfg.Report[j] = code.NodeReportCode(j + i)
						}
					}
					if i&64 != 0 {
						cfg.IP, cfg.BindIP, cfg.Ethernet = net.ParseIP("fe80::1"), nil, make([]byte, 8)
					}
					ev(1)
					c.what = fmt.Sprintf("%+v", cfg)
					keep := clone(cfg)
					before := len(cfg.InputPorts)
					func() {
						// what becomes of such a configuration is not the matter here
						defer func() { _ = recover() }()
						_ = artnet.ArtPollReplyFromConfig(cfg)
					}()
					if !reflect.DeepEqual(keep, clone(cfg)) || before != len(cfg.InputPorts) {
						c.fail("building the reply changed the configuration")
					}
				}
			}},
			{"universe of one port: every port, direction, sub-net", 8 * 256, func(c *ctx, i int) {
				cfg := cfgBase(4, 4, 2)
				b := byte(i) & 0xf0
				cfg.BaseAddress.SubUni = b
				for j := range cfg.InputPorts {
					cfg.InputPorts[j].Address.SubUni = b
					cfg.OutputPorts[j].Address.SubUni = b
				}
				if p := i / 256; p < 4 {
					cfg.InputPorts[p].Address.SubUni = byte(i)
				} else {
					cfg.OutputPorts[p-4].Address.SubUni = byte(i)
				}
				announce(c, cfg)
			}},
			{"protocol types 0..31 of each port, shared or alone, with and without flags", 32 * 4 * 3, func(c *ctx, i int) {
				t, p, m := byte(i%32), i/32%4, i/128
				if t > 5 {
					return // undocumented protocol types have no agreed encoding
				}
				for _, fl := range []byte{0, 0x40, 0x80, 0xc0} {
					cfg := cfgBase(4, 4, 0)
					switch m {
					case 0:
						cfg.InputPorts[p].Type = code.PortType(t | fl)
						cfg.OutputPorts[p].Type = code.PortType(t | fl)
					case 1:
						cfg.OutputPorts = cfg.OutputPorts[:p]
						cfg.InputPorts[p].Type = code.PortType(t | fl)
					case 2:
						cfg.InputPorts = cfg.InputPorts[:p]
						cfg.OutputPorts[p].Type = code.PortType(t | fl)
					}
					announce(c, cfg)
				}
			}},
			{"port status bytes: all values of each port", 8 * 256, func(c *ctx, i int) {
				for n := 1; n <= 4; n++ {
					cfg := cfgBase(n, n, 0)
					if p := i / 256; p < n {
						cfg.InputPorts[p].Status = code.GoodInput(i)
					} else if p >= 4 && p-4 < n {
						cfg.OutputPorts[p-4].Status = code.GoodOutput(i)
					}
					announce(c, cfg)
				}
			}},
			{"numbers and status bytes, all values", 65536, func(c *ctx, i int) {
				cfg := cfgBase(1, 2, 0)
				cfg.OEM = uint16(i)
				announce(c, cfg)
				cfg = cfgBase(2, 1, 0)
				cfg.Version = uint16(i)
				announce(c, cfg)
				cfg = cfgBase(0, 1, 0)
				cfg.Status1, cfg.Status2 = code.Status1(i), code.Status2(i>>8)
				announce(c, cfg)
				cfg.BiosVersion, cfg.BindIndex = byte(i), byte(i>>8)
				announce(c, cfg)
			}},
			{"names of every length, manufacturer, IPs in both forms, MAC, report length", 64 * 65, func(c *ctx, i int) {
				cfg := cfgBase(1, 3, 1)
				n, r := i/65, i%65
				txt := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-+"
				cfg.Name = txt[:min(n, 17)]
				cfg.Description = txt[:n]
				cfg.Manufacturer = txt[:n%3]
				cfg.Report = nil
				for j := 0; j < r; j++ {
					cfg.Report = append(cfg.Report, code.NodeReportCode(j+1))
				}
				switch i % 4 {
				case 0:
					cfg.IP = ip16
				case 1:
					cfg.BindIP = ip16
				case 2:
					cfg.IP, cfg.BindIP = nil, nil
				}
				for j := range cfg.Ethernet {
					cfg.Ethernet[j] = byte(i + j*r)
				}
				announce(c, cfg)
			}},
			{"every ASCII character at every position of the names and manufacturer", 128 * 64, func(c *ctx, i int) {
				ch, pos := byte(i%128), i/128
				if ch == 0 {
					return
				}
				put := func(s string, n int) string {
					if pos >= n {
						return s
					}
					b := []byte(s)
					for len(b) <= pos {
						b = append(b, 'x')
					}
					b[pos] = ch
					return string(b)
				}
				cfg := cfgBase(1, 1, 1)
				cfg.Name, cfg.Description, cfg.Manufacturer = put("", 17), put("", 63), put("zz", 2)
				announce(c, cfg)
				cfg.Name, cfg.Description = put("12345678901234567", 17), put("123456789012345678901234567890123456789012345678901234567890123", 63)
				announce(c, cfg)
			}},
			{"fields empty or extreme, all pairs and triples", len(tweaks) * len(tweaks) * len(tweaks), func(c *ctx, i int) {
				n := len(tweaks)
				a, b, d := i/n/n, i/n%n, i%n
				if a > b || b > d {
					return
				}
				for s := 0; s < 4; s++ {
					cfg := cfgBase(s, (s+2)%5, s)
					tweaks[a](&cfg)
					tweaks[b](&cfg)
					tweaks[d](&cfg)
					announce(c, cfg)
				}
			}},
			{"equal and unequal universes of all ports", 256 * 25, func(c *ctx, i int) {
				cfg := cfgBase(i/256/5, i/256%5, 1)
				for j := range cfg.InputPorts {
					cfg.InputPorts[j].Address.SubUni = cfg.BaseAddress.SubUni | byte(i>>(2*j)&3)
				}
				for j := range cfg.OutputPorts {
					cfg.OutputPorts[j].Address.SubUni = cfg.BaseAddress.SubUni | byte(i>>(6-2*j)&3)
				}
				announce(c, cfg)
			}},
			{"protocol types of four channels, all combinations of 6", 6 * 6 * 6 * 6, func(c *ctx, i int) {
				for n := 0; n < 4; n++ {
					cfg := cfgBase([]int{4, 4, 2, 0}[n], []int{4, 1, 4, 4}[n], 0)
					x := i
					for j := 0; j < 4; j++ {
						t := code.PortType(x % 6)
						x /= 6
						if j < len(cfg.InputPorts) {
							cfg.InputPorts[j].Type = t
						}
						if j < len(cfg.OutputPorts) {
							cfg.OutputPorts[j].Type = t
						}
					}
					announce(c, cfg)
				}
			}},
			{"IP, bind IP and MAC bytes, all values", 14 * 256, func(c *ctx, i int) {
				cfg := cfgBase(1, 1, 1)
				p, v := i/256, byte(i)
				switch {
				case p < 4:
					cfg.IP[p] = v
				case p < 8:
					cfg.BindIP[p-4] = v
				default:
					cfg.Ethernet[p-8] = v
				}
				announce(c, cfg)
			}},
			{"the reply of one configuration is independent of another's", 25 * 25, func(c *ctx, i int) {
				a, b := cfgBase(i/25/5, i/25%5, 1), cfgBase(i%25/5, i%25%5, 2)
				pa := artnet.ArtPollReplyFromConfig(a)
				wa, _ := pa.MarshalBinary()
				announce(c, b)
				pa2 := artnet.ArtPollReplyFromConfig(a)
				wa2, _ := pa2.MarshalBinary()
				if !bytes.Equal(wa, wa2) {
					c.fail("the announcement changed after another configuration was announced")
				}
			}},
		}
		if th {
			sp = append(sp, space{"addresses: 128 nets x 256 x universes of first ports, 4 port counts", 128 * 256, func(c *ctx, i int) {
				a := artnet.Address{Net: byte(i >> 8), SubUni: byte(i) & 0xf0}
				for u := byte(0); u < 16; u++ {
					for n := 1; n <= 4; n++ {
						cfg := cfgBase(n, 5-n, 1)
						cfg.BaseAddress = a
						for j := range cfg.InputPorts {
							cfg.InputPorts[j].Address = artnet.Address{Net: a.Net, SubUni: a.SubUni | (byte(i)+byte(j))&15}
						}
						for j := range cfg.OutputPorts {
							cfg.OutputPorts[j].Address = artnet.Address{Net: a.Net, SubUni: a.SubUni | (u+byte(j)*3)&15}
						}
						announce(c, cfg)
					}
				}
			}})
		}
		return sp
	}})
}
