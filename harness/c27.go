package main

import (
	"bytes"
	"fmt"
	"net"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// one of several nodes of a program
type lone struct {
	w     *vnet.World
	ip    net.IP
	n     *artnet.Node
	on    bool
	sock  *vnet.UDPConn
	got   [][]byte // what its callbacks got
	want  [][]byte
	polls int
	block *gate
	self  []byte
}

func newLone(w *vnet.World, i int, alike bool) *lone {
	l := &lone{w: w, ip: ip4(10 + i)}
	name := fmt.Sprint("node ", i)
	if alike {
		name = "a node"
	}
	l.n = artnet.NewNode(name, code.StNode, l.ip, quiet())
	j := i
	if alike {
		j = 1 // they differ in nothing but their IP
	}
	l.n.Config.Description = fmt.Sprint("description ", j)
	l.n.Config.BaseAddress = artnet.Address{Net: byte(j + 1), SubUni: byte(j << 4)}
	for k := 0; k <= j; k++ {
		l.n.Config.OutputPorts = append(l.n.Config.OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: byte(j + 1), SubUni: byte(j<<4 + k)}})
	}
	l.self = expectReply(l.n.Config)
	cb := func(p packet.ArtNetPacket) {
		if l.block != nil {
			l.block.wait()
		}
		b, err := p.MarshalBinary()
		if err != nil {
			fail("harness: %v", err)
		}
		l.got = append(l.got, b)
	}
	l.n.RegisterCallback(code.OpDMX, cb)
	if i == 0 {
		l.n.RegisterCallback(code.OpSync, cb)
	}
	return l
}

func (l *lone) start() {
	l.w.HostIP = l.ip
	err := l.n.Start()
	if l.on != (err != nil) {
		fail("Start of %v, running %v: %v", l.ip, l.on, err)
	}
	if !l.on {
		l.sock = l.w.Socks[len(l.w.Socks)-1]
	}
	l.on = true
}

func (l *lone) stop() {
	mustReturn("Stop", 5*sec, l.n.Stop)
	l.on = false
}

// packet passes a datagram of the kind to the node.
func (l *lone) packet(k *ref.Kind, seed int) {
	if l.sock == nil || l.sock.IsClosed() {
		return
	}
	b := filled(k, seed)
	if k == kDMX {
		b = kDMX.New()
		kDMX.Put(b, "Length", 2, 0)
		kDMX.Put(b, "Sequence", byte(seed))
		for i := 18; i < len(b); i++ {
			b[i] = byte(i*seed + int(l.ip[3]))
		}
	}
	l.sock.Inject(host(99), b)
	if k == kDMX || k == kSync && l.ip.Equal(ip4(10)) {
		l.want = append(l.want, b)
	}
}

func (l *lone) poll() {
	if l.sock == nil || l.sock.IsClosed() {
		return
	}
	l.sock.Inject(host(99), poll())
	l.polls++
}

func (l *lone) judge(when string) {
	if l.sock != nil && l.on == l.sock.IsClosed() {
		fail("%s: node %v: running %v, its socket closed %v", when, l.ip, l.on, l.sock.IsClosed())
	}
	n := 0
	for _, d := range l.w.Sent {
		if !d.Sock.Host.Equal(l.ip) {
			continue
		}
		n++
		if !bytes.Equal(d.Data, l.self) {
			fail("%s: node %v sent %s, which is not its own reply", when, l.ip, describe(d.Data))
		}
	}
	if n != l.polls {
		fail("%s: node %v sent %d replies to %d polls", when, l.ip, n, l.polls)
	}
	if len(l.got) != len(l.want) {
		fail("%s: node %v passed %d packets to its callbacks, want %d", when, l.ip, len(l.got), len(l.want))
	}
	used := make([]bool, len(l.got))
next:
	for _, x := range l.want {
		for i, g := range l.got {
			if !used[i] && bytes.Equal(g, x) {
				used[i] = true
				continue next
			}
		}
		fail("%s: node %v did not pass on %s as it was", when, l.ip, describe(x))
	}
}

func inject(s *vnet.UDPConn, a announcement) {
	if s != nil && !s.IsClosed() {
		s.Inject(net.UDPAddr{IP: a.ip, Port: 6454}, a.bytes())
	}
}

func init() {
	run := func(depth int) func() {
		return func() {
			w := vnet.NewWorld()
			alike := choose(2, "alike") == 1
			ns := []*lone{newLone(w, 0, alike), newLone(w, 1, alike)}
			vrt.Freeze()
			if choose(2, "running") == 1 {
				for _, l := range ns {
					l.start()
				}
			}
			vrt.Quiesce()
			for i := 0; i < depth; i++ {
				if i == depth-1 {
					vrt.Unfreeze()
				}
				o := choose(12, "op")
				l := ns[o%2]
				switch o / 2 {
				case 0:
					l.start()
				case 1:
					l.stop()
				case 2:
					l.poll()
				case 3:
					l.packet(kDMX, i+1)
					l.packet(kSync, i+1)
				case 4:
					if l.sock != nil {
						l.sock.Inject(host(99), []byte("nonsense"))
					}
				case 5:
					l.n.RegisterCallback(code.OpTrigger, func(packet.ArtNetPacket) { fail("a callback nobody wanted") })
					l.n.DeregisterCallback(code.OpTrigger)
					l.n.SetOption(artnet.NodeBroadcastAddress(net.UDPAddr{IP: ip4(200), Port: 6454}))
					l.n.SetOption(artnet.NodeBroadcastAddress(defaultBroadcast))
				}
				vrt.Quiesce()
				for _, l := range ns {
					l.judge(fmt.Sprint("after step ", i))
				}
			}
			for _, l := range ns {
				l.poll()
				vrt.Quiesce()
				for _, l := range ns {
					l.judge("at the end")
				}
			}
			ns[0].stop()
			ns[1].stop()
			noGoroutines("after Stop")
		}
	}
	scn(&Scenario{Prop: "C27", Name: "c27-nodes", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst},
		What: "two nodes, stopped or running, alike but for the IP or not: all sequences of 4 of 12 operations (start, stop, poll, packets, malformed datagram, setting callbacks and options of one of them); after each, replies, callbacks and state of both",
		Run:  run(4)})
	scn(&Scenario{Prop: "C27", Name: "c27-nodes-schedules", NoRestart: true, D: [2]int{1, 2},
		What: "the same with sequences of 2, schedules within the bound",
		Run:  run(2)})

	scn(&Scenario{Prop: "C27", Name: "c27-nodes-at-once", NoRestart: true, D: [2]int{1, 2},
		What: "two nodes, alike but for the IP or not, get packets and polls at the same time; or one of them has a blocking callback, failing writes or reads, 40 packets, or is stopped or started meanwhile: the other does what it should",
		Run: func() {
			w := vnet.NewWorld()
			alike := choose(2, "alike") == 1
			ns := []*lone{newLone(w, 0, alike), newLone(w, 1, alike)}
			vrt.Freeze()
			for _, l := range ns {
				l.start()
			}
			vrt.Quiesce()
			a, b := ns[0], ns[1]
			if choose(2, "swap") == 1 {
				a, b = b, a
			}
			trouble := choose(7, "trouble")
			vrt.Unfreeze()
			switch trouble {
			case 1:
				a.block = &gate{}
			case 2:
				w.WriteErr = func(d *vnet.Datagram) error {
					if d.Sock == a.sock {
						return errNet
					}
					return nil
				}
			case 3:
				a.sock.Inject(host(99), []byte("nonsense"))
				w.InjectErr(errNet)
			case 4:
				for i := 0; i < 40; i++ {
					a.packet(kSync, i)
				}
			}
			for i := 0; i < 2; i++ {
				a.poll()
				a.packet(kDMX, 3+i)
				b.packet(kDMX, 7+i)
				b.poll()
				b.packet(kSync, 9)
			}
			var g *vrt.G
			if trouble == 5 {
				g = vrt.GoSys("stop", a.n.Stop)
			}
			if trouble == 6 {
				g = vrt.GoSys("stop and start", func() {
					a.n.Stop()
					w.HostIP = a.ip
					a.n.Start()
				})
			}
			vrt.Sleep(ms)
			if g != nil {
				mustReturn("the other goroutine", 5*sec, func() { vrt.Join(g) })
			}
			vrt.Freeze()
			vrt.Quiesce()
			b.judge("amid the trouble of another node")
			if trouble == 0 {
				a.judge("at once")
			}
			if a.block != nil {
				a.block.release()
				vrt.Quiesce()
				a.judge("after blocking")
				b.judge("after another node was blocking")
			}
			mustReturn("Stop", 5*sec, b.n.Stop)
			mustReturn("Stop", 5*sec, a.n.Stop)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C27", Name: "c27-controllers", NoRestart: true, D: [2]int{0, 1}, MaxSteps: 400000,
		What: "two controllers with rates 10 and 4 (or 4 and 10), the same or different nodes, the same addresses, values set through both, nodes that fall silent for one of them, one stopped, restarted or failing to write: tables, values, sequence numbers, rates and polls of each",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			type part struct {
				c    *artnet.Controller
				sock *vnet.UDPConn
				ip   net.IP
				iv   time.Duration
				ann  announcement
				last map[artnet.Address][512]byte
				seq  map[string]int
			}
			swap := choose(2, "swap")
			same := choose(2, "same node") == 1
			event := choose(5, "event")
			var ps [2]*part
			for i := range ps {
				fps := []int{10, 4}[(i+swap)%2]
				p := &part{ip: ip4(10 + i), iv: sec / time.Duration(fps), last: map[artnet.Address][512]byte{}, seq: map[string]int{}}
				p.c = artnet.NewController(fmt.Sprint("ctl ", i), p.ip, quiet(), artnet.MaxFPS(fps))
				p.ann = outNode(50, 1, 2)
				if !same {
					p.ann = outNode(50+i, 1, 2, 3)
				}
				ps[i] = p
			}
			for _, p := range ps {
				w.HostIP = p.ip
				if err := p.c.Start(); err != nil {
					fail("Start: %v", err)
				}
				p.sock = w.Socks[len(w.Socks)-1]
			}
			w.OnSend = func(d *vnet.Datagram) {
				if op(d.Data) != 0x5000 {
					return
				}
				for _, p := range ps {
					if d.Sock != p.sock {
						continue
					}
					a := artnet.Address{Net: d.Data[15], SubUni: d.Data[14]}
					want := p.last[a]
					if !bytes.Equal(d.Data[18:], want[:]) {
						fail("controller %v sent data for %v that was not set through it", p.ip, a)
					}
					if !d.To.IP.Equal(p.ann.ip) {
						fail("controller %v sent to %v, which did not reply to it", p.ip, d.To.IP)
					}
					if p.seq[d.To.IP.String()]++; int(d.Data[12]) != (p.seq[d.To.IP.String()]-1)%255+1 {
						fail("controller %v sent sequence number %d, its packet %d to %v", p.ip, d.Data[12], p.seq[d.To.IP.String()], d.To.IP)
					}
				}
			}
			vrt.Sleep(10 * ms)
			for _, p := range ps {
				p.sock.Inject(net.UDPAddr{IP: p.ann.ip, Port: 6454}, p.ann.bytes())
			}
			vrt.Quiesce()
			vrt.Unfreeze()
			for i := 0; i < 3; i++ {
				for k, p := range ps {
					for _, u := range []byte{1, 2} {
						v := payload(uni(u), k+1, i+1)
						p.last[uni(u)] = v
						p.c.SendDMXToAddress(v, uni(u))
					}
				}
				// longer than a frame of both: what is sent next is the new value
				vrt.Sleep(300 * ms)
			}
			vrt.Freeze()
			a, b := ps[0], ps[1]
			switch event {
			case 1:
				mustReturn("Stop", 5*sec, a.c.Stop)
			case 2:
				mustReturn("Stop", 5*sec, a.c.Stop)
				w.HostIP = a.ip
				a.sock = nil
				if err := a.c.Start(); err != nil {
					fail("Start again: %v", err)
				}
			case 3:
				w.WriteErr = func(d *vnet.Datagram) error {
					if d.Sock == a.sock {
						return errNet
					}
					return nil
				}
			case 4: // silent for the first one only
			}
			from := vrt.Elapsed()
			mark := len(w.Sent)
			for i := 0; i < 5; i++ {
				if event != 4 {
					inject(a.sock, a.ann)
				}
				inject(b.sock, b.ann)
				vrt.Sleep(2500 * ms)
			}
			vrt.Quiesce()
			// the second one is as it would be alone
			if n := known(b.c, b.ann.ip); n == nil || len(b.c.Nodes) != 1 || len(b.c.OutputAddress) != len(b.ann.ports) {
				fail("the second controller knows %d nodes, %d addresses", len(b.c.Nodes), len(b.c.OutputAddress))
			}
			lastAt := map[artnet.Address]time.Duration{}
			polls := 0
			for _, d := range w.Sent[mark:] {
				if d.Sock != b.sock {
					continue
				}
				switch op(d.Data) {
				case 0x2000:
					polls++
				case 0x5000:
					x := artnet.Address{Net: d.Data[15], SubUni: d.Data[14]}
					if lastAt[x] > 0 && (d.At-lastAt[x] < b.iv-ms || d.At-lastAt[x] > 250*ms+b.iv+ms) {
						fail("the second controller sends %v %v after the frame before", x, d.At-lastAt[x])
					}
					lastAt[x] = d.At
				}
			}
			for _, x := range b.ann.addrs() {
				if lastAt[x] < vrt.Elapsed()-250*ms-b.iv-ms {
					fail("the second controller stopped sending %v", x)
				}
			}
			if d := vrt.Elapsed() - from; polls < int(d/(3*sec)) || polls > int(d/(2500*ms))+1 {
				fail("the second controller sent %d polls in %v", polls, d)
			}
			switch event {
			case 0, 3:
				if known(a.c, a.ann.ip) == nil || len(a.c.Nodes) != 1 {
					fail("the first controller knows %d nodes", len(a.c.Nodes))
				}
			case 4:
				if len(a.c.Nodes) != 0 {
					fail("the first controller still knows a node that replied only to the second")
				}
			case 1:
				for _, d := range w.Sent[mark:] {
					if d.Sock == a.sock {
						fail("the first controller sends after Stop")
					}
				}
			}
			mustReturn("Stop", 5*sec, a.c.Stop)
			mustReturn("Stop", 5*sec, b.c.Stop)
			noGoroutines("after Stop")
		}})
}
