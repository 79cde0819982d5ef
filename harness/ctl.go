package main

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

func ip4(n int) net.IP { return net.IP{2, 0, byte(n >> 8), byte(n)} }

func nip(n int) net.UDPAddr { return net.UDPAddr{IP: ip4(n), Port: 6454} }

// outNode announces a node with these output universes (sub-net 0 of net 0).
func outNode(n int, unis ...byte) announcement {
	a := announcement{ip: ip4(n), name: fmt.Sprint("node ", n)}
	for _, u := range unis {
		a.ports = append(a.ports, 0x80)
		a.swin = append(a.swin, 0)
		a.swout = append(a.swout, u)
	}
	return a
}

func (a announcement) at(net, sub byte) announcement {
	a.net, a.sub = net, sub
	return a
}

func (a announcement) addrs() (r []artnet.Address) {
	for _, p := range expectConfig(a.bytes()).OutputPorts {
		r = append(r, p.Address)
	}
	return
}

func reply(w *vnet.World, a announcement) {
	w.Inject(net.UDPAddr{IP: a.ip, Port: 6454}, a.bytes())
}

func startCtl(fps int, opts ...artnet.Option) *artnet.Controller {
	c := artnet.NewController("ctl", ownIP, quiet(), append([]artnet.Option{artnet.MaxFPS(fps)}, opts...)...)
	if err := launch(c); err != nil {
		fail("Start: %v", err)
	}
	return c
}

var ctlConfig = artnet.NodeConfig{Name: "ctl", Type: code.StController, IP: ownIP}

// ---- C15 ----

// cadence checks the polls sent between start and end.
func cadence(w *vnet.World, start, end time.Duration, bc net.UDPAddr, foreign int) {
	want := kPoll.Put(kPoll.New(), "TalkToMe", 2)
	last := time.Duration(-1)
	polls, replies := 0, 0
	me := expectReply(ctlConfig)
	for _, d := range w.Sent {
		switch op(d.Data) {
		case 0x2000:
			polls++
			if !bytes.Equal(d.Data, want) {
				fail("ArtPoll sent with other contents: %s", diff(d.Data, want))
			}
			if !sameAddr(d.To, bc) {
				fail("ArtPoll sent to %v, want %v", d.To.String(), bc.String())
			}
			if last < 0 && d.At != start {
				fail("the first ArtPoll is sent %v after the start", d.At-start)
			}
			if last >= 0 && d.At-last > 3*sec {
				fail("%v between two ArtPolls (at %v)", d.At-last, d.At)
			}
			if last >= 0 && d.At-last < 2500*ms {
				fail("only %v between two ArtPolls (at %v)", d.At-last, d.At)
			}
			last = d.At
			if d.At > end {
				fail("ArtPoll sent after the controller was stopped")
			}
		case 0x2100:
			replies++
			if !bytes.Equal(d.Data, me) {
				fail("poll reply does not describe the controller: %s", diff(d.Data, me))
			}
			if !sameAddr(d.To, bc) {
				fail("poll reply sent to %v, want %v", d.To.String(), bc.String())
			}
		}
	}
	if last < 0 || end-last > 3*sec {
		fail("no ArtPoll in the %v before %v", end-last, end)
	}
	if replies != polls+foreign {
		fail("%d poll replies for %d own and %d other polls", replies, polls, foreign)
	}
}

func init() {
	custom := net.UDPAddr{IP: net.IP{10, 1, 255, 255}, Port: 7000}
	scn(&Scenario{Prop: "C15", Name: "c15-cadence", D: [2]int{0, 0}, MaxSteps: 400000,
		What: "31 s with no load, 8 busy universes, foreign polls, poll replies of many nodes, or all; frame rates 1, 7 and 40; default or own broadcast address; then 10 s stopped",
		Run: func() {
			w := vnet.NewWorld()
			bc := defaultBroadcast
			var opts []artnet.Option
			if choose(2, "broadcast") == 1 {
				bc = custom
				opts = append(opts, artnet.BroadcastAddr(custom))
			}
			load := choose(5, "load")
			c := startCtl(pick("fps", 1, 7, 40), opts...)
			foreign := 0
			end := 31*sec + 300*ms
			for t := 700 * ms; t < end; t += 700 * ms {
				vrt.Sleep(t - vrt.Elapsed())
				if load == 1 || load == 4 {
					reply(w, outNode(60, 1, 2, 3, 4))
					reply(w, outNode(61, 5, 6, 7, 8))
					var d [512]byte
					d[0] = byte(t / ms)
					c.SendDMXToAddress(d, artnet.Address{SubUni: 3})
				}
				if load == 2 || load == 4 {
					for i := 0; i < 5; i++ {
						w.Inject(host(9), poll())
						foreign++
					}
				}
				if load == 3 || load == 4 {
					for i := 0; i < 12; i++ {
						reply(w, outNode(100+i))
					}
				}
			}
			vrt.Sleep(end - vrt.Elapsed())
			vrt.Quiesce()
			cadence(w, 0, end, bc, foreign)
			mustReturn("Stop", 5*sec, c.Stop)
			mark := w.Mark()
			vrt.Sleep(10 * sec)
			if len(w.Sent) != mark {
				fail("sent after Stop: %s", describe(w.Sent[mark].Data))
			}
		}})

	scn(&Scenario{Prop: "C15", Name: "c15-schedules", D: [2]int{2, 3},
		What: "7.5 s with traffic at the poll instants, all schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			load := choose(3, "load")
			c := startCtl(2)
			foreign := 0
			for i := 1; i <= 2; i++ {
				vrt.Sleep(time.Duration(i)*3*sec - vrt.Elapsed())
				switch load {
				case 1:
					w.Inject(host(9), poll())
					w.Inject(host(9), poll())
					foreign += 2
				case 2:
					reply(w, outNode(60, 1))
					c.SendDMXToAddress([512]byte{1}, artnet.Address{SubUni: 1})
				}
			}
			vrt.Sleep(1500 * ms)
			vrt.Quiesce()
			cadence(w, 0, vrt.Elapsed(), defaultBroadcast, foreign)
			mustReturn("Stop", 5*sec, c.Stop)
		}})

	scn(&Scenario{Prop: "C15", Name: "c15-stop", D: [2]int{1, 2},
		What: "stopped at 12 moments of the poll cycle, the poll instants among them: no poll afterwards",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(2)
			at := pick("stop at", 0, 1*ms, 500*ms, 2999*ms, 3*sec, 3001*ms, 4*sec, 6*sec, 6*sec+1, 9*sec, 12*sec, 14*sec)
			vrt.Sleep(at)
			mustReturn("Stop", 5*sec, c.Stop)
			if at > 0 {
				cadence(w, 0, vrt.Elapsed(), defaultBroadcast, 0-lostReplies(w))
			}
			mark := w.Mark()
			vrt.Sleep(10 * sec)
			if len(w.Sent) != mark {
				fail("sent after Stop: %s", describe(w.Sent[mark].Data))
			}
		}})
}

// lostReplies is the number of own polls whose reply was cut off by Stop (at most
// the last one).
func lostReplies(w *vnet.World) int {
	n := len(sentOf(w, 0x2000)) - len(sentOf(w, 0x2100))
	if n < 0 || n > 1 {
		fail("%d polls, %d poll replies", len(sentOf(w, 0x2000)), len(sentOf(w, 0x2100)))
	}
	return n
}

// ---- C16 ----

// book is the reference of the node and address tables.
type book struct {
	cfg   map[string]artnet.NodeConfig
	out   map[artnet.Address]string // most recent announcer
	in    map[artnet.Address]string
	loose map[string]bool // addresses whose most recent announcer withdrew
}

func newBook() *book {
	return &book{map[string]artnet.NodeConfig{}, map[artnet.Address]string{}, map[artnet.Address]string{}, map[string]bool{}}
}

func (b *book) learn(a announcement) {
	cfg := expectConfig(a.bytes())
	if cfg.Type != code.StNode && (cfg.Type != code.StController || len(cfg.OutputPorts) == 0) {
		return
	}
	b.forget(a.ip)
	ip := a.ip.String()
	b.cfg[ip] = cfg
	for _, p := range cfg.OutputPorts {
		b.out[p.Address] = ip
		delete(b.loose, "out "+p.Address.String())
	}
	for _, p := range cfg.InputPorts {
		b.in[p.Address] = ip
		delete(b.loose, "in "+p.Address.String())
	}
}

func (b *book) forget(i net.IP) {
	ip := i.String()
	old, ok := b.cfg[ip]
	if !ok {
		return
	}
	delete(b.cfg, ip)
	for _, p := range old.OutputPorts {
		if b.out[p.Address] == ip {
			delete(b.out, p.Address)
			b.loose["out "+p.Address.String()] = true
		}
	}
	for _, p := range old.InputPorts {
		if b.in[p.Address] == ip {
			delete(b.in, p.Address)
			b.loose["in "+p.Address.String()] = true
		}
	}
}

func (b *book) announces(ip string, a artnet.Address, out bool) bool {
	if out {
		for _, p := range b.cfg[ip].OutputPorts {
			if p.Address == a {
				return true
			}
		}
		return false
	}
	for _, p := range b.cfg[ip].InputPorts {
		if p.Address == a {
			return true
		}
	}
	return false
}

func (b *book) check(c *artnet.Controller, when string) {
	seen := map[string]*artnet.ControlledNode{}
	for _, n := range c.Nodes {
		if n == nil {
			fail("%s: nil node in the table", when)
		}
		ip := n.Node.IP.String()
		if seen[ip] != nil {
			fail("%s: node %s is known twice", when, ip)
		}
		seen[ip] = n
		want, ok := b.cfg[ip]
		if !ok {
			fail("%s: node %s is known and should not be", when, ip)
		}
		if m := sameConfig(n.Node, want); m != "" {
			fail("%s: node %s: %s", when, ip, m)
		}
		if !sameAddr(n.UDPAddress, net.UDPAddr{IP: want.IP, Port: 6454}) {
			fail("%s: node %s has address %v", when, ip, n.UDPAddress.String())
		}
	}
	for ip := range b.cfg {
		if seen[ip] == nil {
			fail("%s: node %s is not known", when, ip)
		}
	}
	table := func(kind string, got map[artnet.Address]*artnet.ControlledNode, want map[artnet.Address]string) {
		for a, n := range got {
			if n == nil || seen[n.Node.IP.String()] != n {
				fail("%s: %s address %v maps to a node that is not in the node table", when, kind, a)
			}
			ip := n.Node.IP.String()
			if w, ok := want[a]; ok {
				if w != ip {
					fail("%s: %s address %v maps to %s, most recently announced by %s", when, kind, a, ip, w)
				}
				continue
			}
			if !b.loose[kind+" "+a.String()] || !b.announces(ip, a, kind == "out") {
				fail("%s: %s address %v maps to %s, which does not announce it", when, kind, a, ip)
			}
		}
		for a, ip := range want {
			if got[a] == nil {
				fail("%s: %s address %v of %s is missing", when, kind, a, ip)
			}
		}
	}
	table("out", c.OutputAddress, b.out)
	table("in", c.InputAddress, b.in)
}

func sameConfig(got, want artnet.NodeConfig) string {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	for i := 0; i < g.NumField(); i++ {
		name := g.Type().Field(i).Name
		a, b := g.Field(i), w.Field(i)
		if a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0 {
			continue
		}
		if name == "IP" || name == "BindIP" {
			if a.Interface().(net.IP).Equal(b.Interface().(net.IP)) {
				continue
			}
		}
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s is %v, announced %v", name, a.Interface(), b.Interface())
		}
	}
	return ""
}

func announcements() []announcement {
	return []announcement{
		outNode(50, 1),
		outNode(50, 1, 2),
		outNode(50, 3).at(5, 2),
		outNode(51, 2, 3),
		{ip: ip4(51), name: "in and out", ports: []byte{0xc0, 0x40, 0x85}, swin: []byte{1, 2, 0}, swout: []byte{4, 0, 15}},
		{ip: ip4(52), name: "more", style: 0, ports: []byte{0x40, 0x80}, swin: []byte{1, 9}, swout: []byte{8, 1}, net: 127, sub: 15, bind: 3},
		{ip: ip4(53), name: "controller", style: 1, ports: []byte{0x80}, swin: []byte{0}, swout: []byte{7}},
		{ip: ip4(54), name: "blind ctl", style: 1, ports: []byte{0x40}, swin: []byte{4}, swout: []byte{0}},
		{ip: ip4(55), name: "media", style: 2, ports: []byte{0x80}, swin: []byte{0}, swout: []byte{1}},
		outNode(51),
		{ip: ip4(52), name: "collides", ports: []byte{0xc0}, swin: []byte{1}, swout: []byte{1}},
		outNode(2562, 1),
	}
}

func init() {
	scn(&Scenario{Prop: "C16", Name: "c16-sequences", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "all sequences of 4 of 12 poll replies of 7 devices (nodes, controllers, a media server; changed, shared and withdrawn addresses); tables compared after each",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			as := announcements()
			var hist []string
			for i := 0; i < 4; i++ {
				k := choose(len(as), "reply")
				hist = append(hist, fmt.Sprint(k))
				reply(w, as[k])
				b.learn(as[k])
				vrt.Quiesce()
				b.check(c, "after replies "+strings.Join(hist, ","))
			}
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-schedules", D: [2]int{2, 3},
		What: "sequences of 2 of 12 poll replies with DMX updates and polls in between, schedules within the bound",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(10)
			b := newBook()
			as := announcements()
			vrt.Sleep(50 * ms)
			for i := 0; i < 2; i++ {
				k := choose(len(as), "reply")
				vrt.Sleep(100*ms - vrt.Elapsed()%(100*ms)) // at a frame instant
				reply(w, as[k])
				c.SendDMXToAddress([512]byte{1, 2}, artnet.Address{SubUni: 1})
				b.learn(as[k])
				vrt.Quiesce()
				b.check(c, "after a reply")
			}
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-burst", D: [2]int{1, 2},
		What: "3, 12 or 30 replies of different devices at once (any order of handling)",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			n := pick("size", 3, 12, 30)
			for i := 0; i < n; i++ {
				a := outNode(60+i, byte(i%16)).at(byte(i/16), byte(i%3))
				if i%3 == 2 {
					a = announcement{ip: ip4(60 + i), name: "x", style: byte(i) % 3, ports: []byte{0xc0}, swin: []byte{byte(i)}, swout: []byte{byte(i)}, net: 40 + byte(i)}
				}
				reply(w, a)
				b.learn(a)
			}
			vrt.Quiesce()
			b.check(c, "after the burst")
			vrt.Sleep(1 * sec)
			b.check(c, "a second later")
		}})

	scn(&Scenario{Prop: "C16", Name: "c16-many", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "60 nodes with 4 ports each announced in turn, three rounds, the ports moving each round",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			b := newBook()
			for r := 0; r < 3; r++ {
				for i := 0; i < 60; i++ {
					k := i*4 + r*6
					a := announcement{ip: ip4(100 + i), name: fmt.Sprint(i, r), ports: []byte{0xc0, 0x80, 0x40, 0xc0}, net: byte(k >> 8), sub: byte(k>>4) & 15,
						swin: []byte{byte(i), 0, 3, 5}, swout: []byte{byte(k), byte(k + 1), 0, byte(k + 3)}}
					reply(w, a)
					b.learn(a)
					vrt.Quiesce()
				}
				b.check(c, fmt.Sprint("round ", r))
				vrt.Sleep(1500 * ms)
				b.check(c, fmt.Sprint("after round ", r))
			}
		}})
}

// ---- C17 ----

func known(c *artnet.Controller, ip net.IP) *artnet.ControlledNode {
	for _, n := range c.Nodes {
		if n.Node.IP.Equal(ip) {
			return n
		}
	}
	return nil
}

func init() {
	scn(&Scenario{Prop: "C17", Name: "c17-expiry", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 400000,
		What: "3 nodes, each with one of 6 reply patterns (steady every 2.9 s or 6.8 s, silent after 1 or 3 replies, returning, late), 5 phases against the clean-up cycle; with or without a writer that keeps setting all universes; watched every 490 ms for 40 s",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(4)
			phase := pick("phase", 10*ms, 900*ms, 1500*ms, 2100*ms, 2990*ms)
			times := func(p int) (r []time.Duration) {
				switch p {
				case 0:
					for t := time.Duration(0); t < 45*sec; t += 2900 * ms {
						r = append(r, t)
					}
				case 1:
					for t := time.Duration(0); t < 45*sec; t += 6800 * ms {
						r = append(r, t)
					}
				case 2:
					r = []time.Duration{0}
				case 3:
					r = []time.Duration{0, 3 * sec, 5 * sec}
				case 4:
					r = []time.Duration{0, 14 * sec, 16 * sec, 32 * sec}
				case 5:
					r = []time.Duration{5 * sec, 8 * sec}
				}
				return
			}
			type evt struct {
				t time.Duration
				n int
			}
			var evs []evt
			var pat [3]int
			for i := range pat {
				pat[i] = choose(6, "pattern")
				for _, t := range times(pat[i]) {
					evs = append(evs, evt{t + phase + time.Duration(i)*70*ms, i})
				}
			}
			sort.SliceStable(evs, func(a, b int) bool { return evs[a].t < evs[b].t })
			last := [3]time.Duration{-1, -1, -1}
			ann := [3]announcement{outNode(50, 1, 2), outNode(51, 3), outNode(52, 4, 5, 6)}
			fresh := [3]int{-1, -1, -1} // index into Sent when (re)discovered
			check := func() {
				now := vrt.Elapsed()
				mustOut := map[artnet.Address]int{}
				mayOut := map[artnet.Address]bool{}
				for i := range pat {
					n := known(c, ann[i].ip)
					age := now - last[i]
					for _, a := range ann[i].addrs() {
						if last[i] >= 0 && age < 7*sec {
							mustOut[a] = i
						}
						if last[i] >= 0 && age <= 10*sec {
							mayOut[a] = true
						}
					}
					if last[i] >= 0 && age < 7*sec && n == nil {
						fail("node %d is not known %v after its last reply", i, age)
					}
					if (last[i] < 0 || age > 10*sec) && n != nil {
						fail("node %d is still known %v after its last reply", i, age)
					}
				}
				for a, i := range mustOut {
					if n := c.OutputAddress[a]; n == nil || !n.Node.IP.Equal(ann[i].ip) {
						fail("address %v of live node %d is missing at %v", a, i, now)
					}
				}
				for a := range c.OutputAddress {
					if !mayOut[a] {
						fail("address %v is still in the table at %v", a, now)
					}
				}
				if len(c.Nodes) > 3 {
					fail("%d nodes known", len(c.Nodes))
				}
			}
			e := 0
			writer := choose(2, "writer") == 1
			for t := 490 * ms; t < 40*sec; t += 490 * ms {
				if writer {
					for i := range ann {
						for _, a := range ann[i].addrs() {
							c.SendDMXToAddress([512]byte{byte(t / (490 * ms)), 5}, a)
						}
					}
				}
				for e < len(evs) && evs[e].t <= t {
					vrt.Sleep(evs[e].t - vrt.Elapsed())
					i := evs[e].n
					if n := known(c, ann[i].ip); n == nil {
						fresh[i] = w.Mark()
					}
					reply(w, ann[i])
					last[i] = evs[e].t
					vrt.Quiesce()
					if known(c, ann[i].ip) == nil {
						fail("node %d is not known right after its reply", i)
					}
					for j, a := range ann[i].addrs() {
						var d [512]byte
						d[1] = byte(j + 1)
						if e%2 == 1 {
							c.SendDMXToAddress(d, a)
						}
					}
					e++
				}
				vrt.Sleep(t - vrt.Elapsed())
				vrt.Quiesce()
				check()
			}
			for _, d := range sentOf(w, 0x5000) {
				ok := false
				for i := range pat {
					if d.To.IP.Equal(ann[i].ip) {
						// the latest reply before the packet
						l := time.Duration(-1)
						for _, e := range evs {
							if e.n == i && e.t <= d.At {
								l = e.t
							}
						}
						ok = l >= 0 && d.At-l <= 10*sec
						if !ok {
							fail("ArtDmx sent to node %d at %v, %v after its last reply", i, d.At, d.At-l)
						}
					}
				}
				if !ok {
					fail("ArtDmx sent to %v", d.To.String())
				}
			}
		}})

	scn(&Scenario{Prop: "C17", Name: "c17-return-blackout", D: [2]int{1, 2}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "a node with set universes is forgotten and returns 11..14 s later, with the same or other ports: known at once, first frames are black, numbering starts at 1",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(4)
			vrt.Freeze()
			a := outNode(50, 1, 2)
			vrt.Sleep(100 * ms)
			reply(w, a)
			vrt.Quiesce()
			var full [512]byte
			for i := range full {
				full[i] = 0xff
			}
			for _, x := range a.addrs() {
				c.SendDMXToAddress(full, x)
			}
			vrt.Sleep(pick("silence", 10100*ms, 11*sec, 12500*ms, 14*sec))
			vrt.Quiesce()
			if len(c.Nodes) != 0 || len(c.OutputAddress) != 0 {
				fail("the node is still known")
			}
			for _, x := range a.addrs() {
				c.SendDMXToAddress(full, x) // no effect
			}
			vrt.Unfreeze()
			mark := w.Mark()
			b := pick("returns as", outNode(50, 1, 2), outNode(50, 2, 3))
			reply(w, b)
			vrt.Quiesce()
			if known(c, b.ip) == nil {
				fail("the node is not known right after its reply")
			}
			vrt.Sleep(700 * ms)
			seq := byte(0)
			got := map[artnet.Address]bool{}
			for _, d := range w.Sent[mark:] {
				if op(d.Data) != 0x5000 {
					continue
				}
				seq++
				if d.Data[12] != seq {
					fail("sequence number %d, want %d", d.Data[12], seq)
				}
				got[artnet.Address{Net: d.Data[15], SubUni: d.Data[14]}] = true
				if !bytes.Equal(d.Data[18:], make([]byte, 512)) {
					fail("a frame sent to the node after its return is not black")
				}
			}
			for _, x := range b.addrs() {
				if !got[x] {
					fail("no blackout frame for %v", x)
				}
			}
		}})

	scn(&Scenario{Prop: "C17", Name: "c17-shared", D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.NewestFirst},
		What: "several nodes fall silent at once, before, between or after live ones in the table, sharing addresses with them or not",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(1)
			vrt.Freeze()
			n := 5
			mask := 1 + choose(31, "silent nodes")
			share := choose(2, "shared address")
			b := newBook()
			ann := func(i int) announcement {
				a := outNode(50+i, byte(i))
				if share == 1 {
					a = announcement{ip: ip4(50 + i), name: fmt.Sprint(i), ports: []byte{0xc0, 0x80}, swin: []byte{14, 0}, swout: []byte{byte(i), 15}}
				}
				return a
			}
			vrt.Sleep(1 * sec)
			for i := 0; i < n; i++ {
				reply(w, ann(i))
				b.learn(ann(i))
				vrt.Quiesce()
			}
			live := func() {
				for i := 0; i < n; i++ {
					if mask>>i&1 == 0 {
						reply(w, ann(i))
						b.learn(ann(i))
						vrt.Quiesce()
					}
				}
			}
			vrt.Sleep(3700 * ms)
			live()
			vrt.Sleep(3700 * ms)
			vrt.Unfreeze()
			live()
			vrt.Sleep(3100 * ms) // 10.5 s after the last reply of the silent ones
			vrt.Quiesce()
			for i := 0; i < n; i++ {
				if mask>>i&1 == 1 {
					b.forget(ann(i).ip)
				}
			}
			b.check(c, fmt.Sprintf("10.5 s after the nodes %05b fell silent", mask))
			live()
			vrt.Sleep(600 * ms)
			vrt.Quiesce()
			b.check(c, fmt.Sprintf("after the nodes %05b fell silent", mask))
		}})
}
