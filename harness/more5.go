package main

import (
	"bytes"
	"fmt"
	"net"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// legal says whether a datagram of the kind may carry the value in the byte
// (the fields with restricted values are left alone).
func legal(k *ref.Kind, i int, v byte) bool {
	switch k.Name {
	case "ArtPollReply":
		return i != 14 && i != 15 && (i != 200 || v < 7)
	case "ArtCommand":
		return i != 12 && i != 13
	case "ArtDMX":
		return i != 16 && i != 17
	}
	return true
}

func init() {
	scn(&Scenario{Prop: "C11", Name: "c11-values", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 2000000,
		What: "packets of every kind with every value of each of the first 24 bytes after identifier and opcode (version: every accepted one), and 6 values of every byte up to 110; each reaches the callback as it was",
		Run: func() {
			w := vnet.NewWorld()
			k := ref.Kinds[choose(12, "kind")]
			base := choose(2, "content")
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			var got []packet.ArtNetPacket
			n.RegisterCallback(opc(k), func(p packet.ArtNetPacket) { got = append(got, p) })
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			send := func(i int, v byte) {
				if !legal(k, i, v) || k.Name != "ArtPollReply" && i == 11 && v < 14 {
					return
				}
				d := k.New()
				if base == 1 {
					d = filled(k, 2)
				}
				if i >= len(d) {
					return
				}
				d[i] = v
				got = got[:0]
				w.Inject(host(9), d)
				vrt.Quiesce()
				if len(got) != 1 {
					fail("%s with byte %d = %#02x: %d calls of the callback", k.Name, i, v, len(got))
				}
				if m := ref.Mismatch(got[0], k, d); m != "" {
					fail("%s with byte %d = %#02x: %s", k.Name, i, v, m)
				}
			}
			for i := 10; i < 110; i++ {
				if i < 34 {
					for v := 0; v < 256; v++ {
						send(i, byte(v))
					}
					continue
				}
				for _, v := range []byte{0, 1, 0x7f, 0x80, 0xfe, 0xff} {
					send(i, v)
				}
			}
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-contents", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 2000000,
		What: "a node or controller gets datagrams of each length 0..620 and 10 lengths up to 65507 with one of 12 contents (zeros, ones, text, identifier only, headers of a known, unknown, unimplemented or short kind, ...); every 20 and at the end: a poll, and for a node a packet, are handled",
		Run: func() {
			w := vnet.NewWorld()
			isCtl := choose(2, "object") == 1
			content := choose(12, "content")
			var c *collector
			var want []byte
			var stop func()
			if isCtl {
				x := startCtl(4)
				want, stop = expectReply(ctlConfig), x.Stop
			} else {
				n := artnet.NewNode("a node", code.StNode, ownIP, loud())
				c = &collector{}
				n.RegisterCallback(code.OpSync, c.cb("sync"))
				if err := launch(n); err != nil {
					fail("Start: %v", err)
				}
				want, stop = expectReply(n.Config), n.Stop
			}
			vrt.Quiesce()
			sent, polls := 0, sentOf(w, 0x2100)
			replies := len(polls)
			make1 := func(l int) []byte {
				d := make([]byte, l)
				head := func(b ...byte) { copy(d, append([]byte("Art-Net\x00"), b...)) }
				switch content {
				case 1:
					for i := range d {
						d[i] = 0xff
					}
				case 2:
					copy(d, bytes.Repeat([]byte("Art-Net"), 1+l/7))
				case 3:
					head()
				case 4: // ArtDmx that is too old
					head(0, 0x50, 0, 13)
				case 5: // ArtDmx with an illegal length
					head(0, 0x50, 0, 14, 0, 0, 0, 0, 0, 1)
				case 6: // unknown
					head(0x34, 0x12, 0, 14)
				case 7: // not implemented
					head(0, 0x83, 0, 14)
				case 8: // ArtPollReply with another port
					head(0, 0x21, 2, 0, 0, 9, 1, 1)
				case 9: // ArtCommand of another manufacturer
					head(0, 0x24, 0, 14, 1, 2)
				case 10: // ArtInput
					head(0, 0x70, 0, 14)
				case 11: // identifier in lower case
					copy(d, "art-net\x00\x00\x20\x00\x0e")
				}
				return d
			}
			check := func(when string) {
				w.Inject(host(9), poll())
				replies++
				if c != nil {
					w.Inject(host(9), filled(kSync, 1))
					sent++
				}
				vrt.Quiesce()
				got := 0
				for _, d := range w.Sent {
					if op(d.Data) != 0x2100 {
						continue
					}
					got++
					if !bytes.Equal(d.Data, want) {
						fail("%s: a poll reply does not describe the configuration", when)
					}
				}
				if got != replies {
					fail("%s: %d replies to %d polls", when, got, replies)
				}
				if c != nil && len(c.got) != sent {
					fail("%s: %d of %d packets passed to the callback", when, len(c.got), sent)
				}
			}
			for l := 0; l <= 620; l++ {
				w.Inject(host(9), make1(l))
				vrt.Quiesce()
				if l%20 == 0 {
					check(fmt.Sprint("after ", l, " bytes"))
				}
			}
			for _, l := range []int{1023, 1024, 1400, 1472, 1500, 4095, 4096, 4097, 9000, 65507} {
				w.Inject(host(9), make1(l))
				vrt.Quiesce()
			}
			check("at the end")
			mustReturn("Stop", 5*sec, stop)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C18", Name: "c18-same-values", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 400000,
		What: "4 universes of two nodes (two of them of the same number in different sub-nets): in each of 2 rounds each is left alone, or set to one of two values, so that several get or have the same values; changed ones are sent within a frame, and always what was set for them",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(40)
			vrt.Sleep(3 * ms)
			x, y := outNode(50, 1, 2, 3), outNode(51, 1).at(0, 1)
			reply(w, x)
			reply(w, y)
			vrt.Quiesce()
			vrt.Sleep(30 * ms)
			as := append(x.addrs(), y.addrs()...)
			cur := map[artnet.Address][512]byte{}
			vals := [][512]byte{payload(uni(1), 1, 1), payload(uni(2), 2, 2)}
			for round := 0; round < 2; round++ {
				changed := map[artnet.Address]bool{}
				for _, a := range as {
					if v := choose(3, "value"); v > 0 {
						c.SendDMXToAddress(vals[v-1], a)
						changed[a] = cur[a] != vals[v-1]
						cur[a] = vals[v-1]
					}
				}
				mark := w.Mark()
				vrt.Sleep(25 * ms)
				vrt.Quiesce()
				for _, d := range w.Sent[mark:] {
					if op(d.Data) != 0x5000 {
						continue
					}
					a := artnet.Address{Net: d.Data[15], SubUni: d.Data[14]}
					want := cur[a]
					if !bytes.Equal(d.Data[18:], want[:]) {
						fail("round %d: %v: the frame sent does not carry the values set (%s)", round, a, diff(d.Data[18:], want[:]))
					}
					delete(changed, a)
				}
				for a, ch := range changed {
					if ch {
						fail("round %d: %v: changed values are not sent within a frame interval", round, a)
					}
				}
			}
		}})

	scn(&Scenario{Prop: "C27", Name: "c27-defaults", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 400000,
		What: "a node or controller with options for everything (in the constructor or set later; IPs of 4 or 16 bytes; not started, running or stopped) and, created before or after, a node or controller without options: the latter listens, broadcasts and sends as by default, the former as it was told",
		Run: func() {
			w := vnet.NewWorld()
			first, second := choose(2, "object with options"), choose(2, "object without")
			before := choose(2, "created before") == 1
			later := choose(2, "options set later") == 1
			state := choose(3, "state")
			long := choose(2, "16 bytes") == 1
			bc := net.UDPAddr{IP: net.IP{10, 9, 8, 7}, Port: 7000}
			li := net.UDPAddr{IP: ip4(10), Port: 7001}
			if long {
				bc.IP, li.IP = bc.IP.To16(), li.IP.To16()
			}
			type object interface {
				Start() error
				Stop()
			}
			var a, b object
			var bn *artnet.Node
			var bc2 *artnet.Controller
			makeB := func() {
				if second == 0 {
					bn = artnet.NewNode("plain", code.StNode, ip4(11), quiet())
					b = bn
				} else {
					bc2 = artnet.NewController("plain", ip4(11), quiet())
					b = bc2
				}
			}
			if before {
				makeB()
			}
			if first == 0 {
				opts := []artnet.NodeOption{artnet.NodeBroadcastAddress(bc), artnet.NodeListenAddress(li)}
				if later {
					n := artnet.NewNode("told", code.StNode, ip4(10), quiet())
					for _, o := range opts {
						n.SetOption(o)
					}
					a = n
				} else {
					a = artnet.NewNode("told", code.StNode, ip4(10), quiet(), opts...)
				}
				a.(*artnet.Node).RegisterCallback(code.OpSync, func(packet.ArtNetPacket) { fail("the callback of another node was called") })
			} else {
				opts := []artnet.Option{artnet.BroadcastAddr(bc), artnet.ListenAddress(li), artnet.MaxFPS(2)}
				if later {
					c := artnet.NewController("told", ip4(10), quiet())
					for _, o := range opts {
						c.SetOption(o)
					}
					a = c
				} else {
					a = artnet.NewController("told", ip4(10), quiet(), opts...)
				}
			}
			if !before {
				makeB()
			}
			up := func(o object, ip net.IP) *vnet.UDPConn {
				w.HostIP = ip
				if err := o.Start(); err != nil {
					fail("Start of %v: %v", ip, err)
				}
				return w.Socks[len(w.Socks)-1]
			}
			var as *vnet.UDPConn
			if state > 0 {
				as = up(a, ip4(10))
				vrt.Quiesce()
			}
			if state == 2 {
				mustReturn("Stop", 5*sec, a.Stop)
			}
			bs := up(b, ip4(11))
			if bs.Local.Port != 6454 || bs.Local.IP != nil && !bs.Local.IP.IsUnspecified() {
				fail("the object without options listens on %v", bs.Local.String())
			}
			vrt.Quiesce()
			bs.Inject(host(99), poll())
			bs.Inject(host(99), filled(kSync, 1))
			if as != nil && !as.IsClosed() {
				as.Inject(host(99), poll())
			}
			vrt.Quiesce()
			if bc2 != nil {
				ann := outNode(50, 1)
				inject(bs, ann)
				vrt.Quiesce()
				vrt.Sleep(5 * ms)
				for i := 0; i < 5; i++ {
					v := payload(uni(1), 1, i+1)
					bc2.SendDMXToAddress(v, uni(1))
					mark := w.Mark()
					vrt.Sleep(2 * ms)
					vrt.Quiesce()
					n := 0
					for _, d := range w.Sent[mark:] {
						if d.Sock == bs && op(d.Data) == 0x5000 && bytes.Equal(d.Data[18:], v[:]) {
							n++
						}
					}
					if n == 0 {
						fail("the controller without options does not send values within 2 ms")
					}
				}
				vrt.Sleep(3100 * ms)
				vrt.Quiesce()
			}
			aReplies, bReplies, bPolls := 0, 0, 0
			for _, d := range w.Sent {
				o := op(d.Data)
				if o == 0x5000 {
					continue
				}
				to, want := &bReplies, defaultBroadcast
				if d.Sock != bs {
					to, want = &aReplies, bc
				}
				if !d.To.IP.Equal(want.IP) || d.To.Port != want.Port {
					fail("%s of %v sent to %v, want %v", describe(d.Data), d.Sock.Host, d.To.String(), want.String())
				}
				switch o {
				case 0x2100:
					*to++
				case 0x2000:
					if d.Sock == bs {
						bPolls++
					}
				}
			}
			wantB := 1
			if bc2 != nil {
				if bPolls != 2 {
					fail("the controller without options sent %d polls", bPolls)
				}
				wantB += bPolls
			}
			if bReplies != wantB {
				fail("the object without options sent %d replies, want %d", bReplies, wantB)
			}
			mustReturn("Stop", 5*sec, b.Stop)
			mustReturn("Stop", 5*sec, a.Stop)
			noGoroutines("after Stop")
		}})
}
