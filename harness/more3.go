package main

import (
	"io/fs"
	"net"
	"os"
	"syscall"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// ioErrors are errors a socket operation may give without the socket being closed.
var ioErrors = []error{
	syscall.ENETUNREACH, syscall.EPERM, syscall.ENOBUFS, syscall.ECONNREFUSED, syscall.EAGAIN,
	syscall.EMSGSIZE, syscall.EHOSTUNREACH, syscall.EACCES, syscall.EINVAL, syscall.ENETDOWN,
	syscall.EINTR, syscall.ENOMEM, syscall.EPIPE, syscall.ECONNRESET, syscall.EHOSTDOWN, syscall.EADDRNOTAVAIL,
	syscall.EIO, os.ErrDeadlineExceeded, fs.ErrPermission, errWeird,
}

func ioError(op string) error {
	e := ioErrors[choose(len(ioErrors), "error")]
	if _, ok := e.(syscall.Errno); ok {
		return sysErr(op, e)
	}
	return e
}

func init() {
	scn(&Scenario{Prop: "C11", Name: "c11-sizes", D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "datagrams of every kind followed by 1 byte or padded to 16 sizes up to 65507 bytes, between two plain ones",
		Run: func() {
			w := vnet.NewWorld()
			k := ref.Kinds[choose(12, "kind")]
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			n.RegisterCallback(opc(k), c.cb("a"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			size := pick("size", 0, 240, 530, 531, 600, 1000, 1023, 1024, 1025, 1400, 1472, 1473, 1500, 2048, 4095, 4096, 4097, 8192, 65507)
			d := filled(k, 3)
			if size == 0 {
				d = append(d, 0x77)
			}
			for len(d) < size {
				d = append(d, byte(len(d)))
			}
			first, last := filled(k, 1), filled(k, 2)
			w.Inject(host(9), first)
			w.Inject(host(9), d)
			w.Inject(host(9), last)
			vrt.Quiesce()
			c.expect("a", first, d, last)
		}})

	scn(&Scenario{Prop: "C11", Name: "c11-blocked-many", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 400000,
		What: "70, 140, 300 or 1100 callbacks block while 3 later packets and polls arrive; then all return",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			c := &collector{}
			g := &gate{}
			inner := c.cb("trigger")
			n.RegisterCallback(code.OpTrigger, func(p packet.ArtNetPacket) {
				g.wait()
				inner(p)
			})
			n.RegisterCallback(code.OpDMX, c.cb("dmx"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			k := pick("blocked", 70, 140, 300, 1100)
			kt := ref.ByName("ArtTrigger")
			var tr, dm [][]byte
			for i := 0; i < k; i++ {
				d := filled(kt, i+1)
				tr = append(tr, d)
				w.Inject(host(9), d)
				if i%40 == 39 {
					vrt.Quiesce()
				}
			}
			for i := 0; i < 3; i++ {
				d := filled(kDMX, i+1)
				dm = append(dm, d)
				w.Inject(host(9), d)
				w.Inject(host(7), poll())
			}
			vrt.Quiesce()
			if g.in != k {
				fail("%d callbacks called, want %d while none has returned", g.in, k)
			}
			c.expect("dmx", dm...)
			checkReplies(w, 0, 3, expectReply(n.Config), defaultBroadcast, nil)
			g.release()
			vrt.Quiesce()
			n1 := 0
			for _, x := range c.got {
				if x.cb == "trigger" {
					n1++
				}
			}
			if n1 != k {
				fail("%d of %d callbacks came back", n1, k)
			}
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-node-errors", D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "each of 20 errors on 1, 2 or 12 reads, on 1, 2 or 12 writes, or on both, with packets between; then a poll, a packet for a callback and Stop",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, loud())
			c := &collector{}
			n.RegisterCallback(code.OpDMX, c.cb("dmx"))
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			where := 1 + choose(3, "where")
			times := pick("times", 1, 2, 12)
			e := ioError(pick("op", "sendto"))
			bad := false
			w.WriteErr = func(*vnet.Datagram) error {
				if bad {
					return e
				}
				return nil
			}
			var ds [][]byte
			for i := 0; i < times; i++ {
				if where&1 != 0 {
					w.InjectErr(e)
				}
				bad = where&2 != 0
				w.Inject(host(9), poll())
				d := filled(kDMX, i+1)
				ds = append(ds, d)
				w.Inject(host(9), d)
				vrt.Quiesce()
				bad = false
				w.Inject(host(8), poll())
				vrt.Quiesce()
			}
			good := times
			if where&2 == 0 {
				good = 2 * times
			}
			checkReplies(w, 0, good, expectReply(n.Config), defaultBroadcast, nil)
			c.expect("dmx", ds...)
			mustReturn("Stop", 5*sec, n.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C12", Name: "c12-controller-errors", D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
		What: "each of 20 errors on the reads, the writes or both of a controller, once or every 150 ms for 3 s; it still learns nodes, polls and sends",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(10)
			reply(w, outNode(50, 1))
			vrt.Quiesce()
			where := 1 + choose(3, "where")
			times := pick("times", 1, 20)
			e := ioError(pick("op", "sendto"))
			if where&2 != 0 {
				w.WriteErr = func(*vnet.Datagram) error { return e }
			}
			for i := 0; i < times; i++ {
				if where&1 != 0 {
					w.InjectErr(e)
				}
				vrt.Sleep(150 * ms)
			}
			vrt.Quiesce()
			w.WriteErr = nil
			reply(w, outNode(50, 1))
			reply(w, outNode(51, 2))
			vrt.Quiesce()
			if known(c, ip4(50)) == nil || known(c, ip4(51)) == nil {
				fail("the nodes are not known after the errors")
			}
			l := newLedger(w)
			l.untracked = true
			mark := w.Mark()
			l.set(c, 1, uni(1), false, false)
			l.set(c, 1, uni(2), false, false)
			vrt.Sleep(3*sec + 500*ms)
			l.final(uni(1))
			l.final(uni(2))
			polls := 0
			for _, d := range w.Sent[mark:] {
				if op(d.Data) == 0x2000 {
					polls++
				}
			}
			if polls == 0 {
				fail("no poll is sent any more")
			}
			mustReturn("Stop", 5*sec, c.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})
}

func init() {
	scn(&Scenario{Prop: "C17", Name: "c17-busy", D: [2]int{0, 0}, MaxSteps: 400000,
		What: "a node is silent while 3 or 30 others reply, or 30 polls and all 60 universes set, at every full half second; it is forgotten in time, the others stay",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(4)
			load := choose(3, "load")
			n := []int{3, 30, 15}[load]
			ann := func(i int) announcement {
				return outNode(60+i, byte(i), byte(i+1)%16, byte(i+2)%16, byte(i+3)%16).at(byte(i/16), 2)
			}
			var as []announcement
			for i := 0; i < n; i++ {
				as = append(as, ann(i))
			}
			start := pick("first reply at", 200*ms, 2900*ms, 3*sec)
			vrt.Sleep(start)
			reply(w, outNode(50, 1, 2))
			vrt.Quiesce()
			for t := 3*sec + 500*ms; t <= start+12*sec; t += 500 * ms {
				vrt.Sleep(t - vrt.Elapsed())
				for i, a := range as {
					if load < 2 || (int(t/(500*ms))+i)%3 == 0 {
						reply(w, a)
					}
					if load == 2 {
						w.Inject(host(9), poll())
						w.Inject(host(9), poll())
						for _, p := range expectConfig(a.bytes()).OutputPorts {
							c.SendDMXToAddress([512]byte{byte(t / ms)}, p.Address)
						}
					}
				}
				vrt.Sleep(1)
				vrt.Quiesce()
				k := known(c, ip4(50)) != nil
				if age := vrt.Elapsed() - start; age < 7*sec && !k {
					fail("forgotten after %v of silence", age)
				} else if age > 10*sec && k {
					fail("still known after %v of silence", age)
				}
			}
			for _, a := range as {
				if known(c, a.ip) == nil {
					fail("%v is not known though it replied", a.ip)
				}
			}
		}})

	scn(&Scenario{Prop: "C15", Name: "c15-busy", D: [2]int{0, 1}, MaxSteps: 400000,
		What: "3, 12 or 40 universes all due, none or all set anew, and 0, 4 or 30 foreign polls arriving at the instants of the polls (schedules explored around one of them)",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			n := pick("universes", 3, 12, 40)
			burst := pick("foreign polls", 0, 4, 30)
			set := choose(2, "set") == 1
			before := choose(2, "arriving before") == 1
			c := startCtl(4)
			foreign := 0
			var addrs []artnet.Address
			announce := func() {
				for i := 0; i < n; i++ {
					if i%3 == 0 {
						a := outNode(60+i/3, byte(i%16), byte((i+1)%16), byte((i+2)%16))
						a = a.at(byte(i/16), byte(i/3%16))
						reply(w, a)
						for _, p := range expectConfig(a.bytes()).OutputPorts {
							addrs = append(addrs, p.Address)
						}
						if i%24 == 21 {
							vrt.Quiesce()
						}
					}
				}
				vrt.Quiesce()
			}
			vrt.Sleep(100 * ms)
			announce()
			k := 0
			for i := 1; i <= 3; i++ {
				vrt.Sleep(time.Duration(i)*3*sec - sec - vrt.Elapsed())
				announce()
				d := time.Duration(0)
				if before {
					d = 1
				}
				vrt.Sleep(time.Duration(i)*3*sec - d - vrt.Elapsed())
				if i == 2 {
					vrt.Unfreeze()
				}
				for j := 0; j < burst; j++ {
					w.Inject(host(9), poll())
					foreign++
				}
				if set {
					k++
					for u := 0; u < n; u++ {
						c.SendDMXToAddress([512]byte{byte(k)}, addrs[u])
					}
				}
				vrt.Sleep(1 * ms)
				vrt.Freeze()
			}
			vrt.Sleep(1500 * ms)
			vrt.Quiesce()
			cadence(w, 0, vrt.Elapsed(), defaultBroadcast, foreign)
			mustReturn("Stop", 5*sec, c.Stop)
		}})
}

func init() {
	scn(&Scenario{Prop: "C15", Name: "c15-answers", D: [2]int{0, 1}, Linger: 1200 * ms, StarveMax: 9, Policies: []int{vrt.OldestFirst}, MaxSteps: 400000,
		What: "0, 9 or 40 foreign polls and 0 or 15 due universes shortly before or after a poll instant while one goroutine waits 1.2 s before each of its steps: polls go on and all are answered, each once",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			c := startCtl(10)
			burst := pick("foreign polls", 0, 9, 40)
			if choose(2, "universes") == 1 {
				for i := 0; i < 5; i++ {
					reply(w, outNode(60+i, byte(i), byte(i+5), byte(i+10)))
				}
			}
			off := pick("burst", -700*ms, -100*ms, 0, 300*ms)
			vrt.Sleep(3*sec + off)
			vrt.Unfreeze()
			for i := 0; i < burst; i++ {
				w.Inject(host(9), poll())
			}
			vrt.Sleep(4 * sec)
			vrt.Freeze()
			vrt.Sleep(5 * sec)
			vrt.Quiesce()
			mark := w.Mark()
			vrt.Sleep(6 * sec)
			vrt.Quiesce()
			polls, replies := len(sentOf(w, 0x2000)), len(sentOf(w, 0x2100))
			if replies != polls+burst {
				fail("%d poll replies for %d own and %d other polls", replies, polls, burst)
			}
			late := 0
			for _, d := range w.Sent[mark:] {
				if op(d.Data) == 0x2000 {
					late++
				}
			}
			if late < 1 {
				fail("no more polls after the burst")
			}
			mustReturn("Stop", 5*sec, c.Stop)
		}})
}

// bindErrors: the address of a node or controller cannot be used at first.
func bindErrors() {
	w := vnet.NewWorld()
	want := defaultPlace()
	ctl := choose(2, "controller") == 1
	st := settings()
	k := choose(len(st)+1, "option")
	e := pick("error", syscall.EADDRINUSE, syscall.EADDRNOTAVAIL, syscall.EACCES, syscall.EPERM)
	all := choose(2, "every address") == 1
	times := 1 + choose(3, "failures")
	blocker := choose(2, "taken") == 1 // by another socket, otherwise refused
	var no []artnet.NodeOption
	var co []artnet.Option
	if k < len(st) {
		no, co = append(no, st[k].node), append(co, st[k].ctl)
		st[k].set(&want)
	}
	var start func() error
	var stop func()
	if ctl {
		c := artnet.NewController("ctl", ownIP, quiet(), co...)
		start, stop = c.Start, c.Stop
	} else {
		n := artnet.NewNode("a node", code.StNode, ownIP, quiet(), no...)
		start, stop = n.Start, n.Stop
	}
	var other net.PacketConn
	if blocker {
		o, err := vnet.ListenPacket("udp4", want.listen.String())
		if err != nil {
			fail("harness: %v", err)
		}
		other = o
	} else {
		w.BindErr = func(a *net.UDPAddr) error {
			if all || sameAddr(*a, want.listen) || len(a.IP) == 0 && want.listen.IP.IsUnspecified() && a.Port == want.listen.Port {
				return sysErr("bind", e)
			}
			return nil
		}
	}
	open := len(w.Open())
	for i := 0; i < times; i++ {
		if err := start(); err == nil {
			fail("Start gives no error though %v cannot be used", want.listen.String())
		}
		vrt.Sleep(4 * sec)
		if len(w.Open()) != open || len(w.Sent) != 0 {
			fail("after a failed Start %d sockets are open and %d packets were sent", len(w.Open())-open, len(w.Sent))
		}
		noGoroutines("after a failed Start")
		if i == 1 {
			stop()
		}
	}
	if blocker {
		other.Close()
	}
	w.BindErr = nil
	if err := start(); err != nil {
		fail("Start once the address is free: %v", err)
	}
	s := onlySocket(w, want.listen)
	w.Inject(host(9), poll())
	vrt.Quiesce()
	n := 0
	for _, d := range w.Sent {
		if op(d.Data) == 0x2100 {
			n++
		}
		if d.Sock != s {
			fail("a packet left from another socket")
		}
	}
	wantN := 1
	if ctl {
		wantN = 2
	}
	if n != wantN {
		fail("%d poll replies, want %d", n, wantN)
	}
	mustReturn("Stop", sec, stop)
	if !s.IsClosed() || len(w.Open()) != 0 {
		fail("a socket is left open after Stop")
	}
	noGoroutines("after Stop")
}

func init() {
	for _, p := range []string{"C14", "C25"} {
		scn(&Scenario{Prop: p, Name: map[string]string{"C14": "c14", "C25": "c25"}[p] + "-bind-errors", D: [2]int{0, 1}, NoRestart: true,
			What: "node or controller with one of 7 listen options or none, whose address (or every address) is taken or refused with one of 4 errors for 1 to 3 Starts, and then free",
			Run:  bindErrors})
	}
}

var _ net.IP
var _ time.Duration

// A few writes fail while universes are being sent.
func init() {
	for _, p := range []string{"C18", "C20"} {
		p := p
		scn(&Scenario{Prop: p, Name: "c" + p[1:] + "-write-errors", Linger: 300 * ms, StarveMax: 9, NoRestart: true, D: [2]int{1, 2}, MaxSteps: 400000, Policies: []int{vrt.OldestFirst, vrt.RoundRobin},
			What: "three universes of a node and one of another; the 1st, 4th, 5th or 9th write of ArtDmx fails, or two in a row, or every third: what is sent afterwards is whole and in order, and no sequence number comes back",
			Run: func() {
				w := vnet.NewWorld()
				vrt.Freeze()
				l := newLedger(w)
				c := startCtl(10)
				vrt.Sleep(33 * ms)
				as := []announcement{outNode(50, 1, 2, 3), outNode(51, 4)}
				for _, a := range as {
					reply(w, a)
				}
				at := pick("at", 1, 4, 5, 9)
				much := choose(3, "much") // one, two in a row, every third
				writes := 0
				failed := map[string]int{}
				w.WriteErr = func(d *vnet.Datagram) error {
					if op(d.Data) != 0x5000 {
						return nil
					}
					writes++
					if writes == at || much == 1 && writes == at+1 || much == 2 && writes > at && (writes-at)%3 == 0 {
						failed[d.To.IP.String()]++
						return errNet
					}
					return nil
				}
				last := map[string]int{}
				sent := w.OnSend
				w.OnSend = func(d *vnet.Datagram) {
					sent(d)
					if op(d.Data) != 0x5000 || p != "C20" {
						return
					}
					h := d.To.IP.String()
					n := int(d.Data[12])
					if n <= last[h] || n > last[h]+1+failed[h] {
						fail("sequence number %d after %d, with %d packets lost in between", n, last[h], failed[h])
					}
					last[h], failed[h] = n, 0
				}
				for i := 0; i < 5; i++ {
					if i == 0 || i == 2 {
						vrt.Unfreeze()
					}
					if i == 1 || i == 3 {
						vrt.Freeze()
					}
					for u := 1; u <= 4; u++ {
						l.set(c, 1, uni(byte(u)), false, false)
					}
					vrt.Sleep(100 * ms)
				}
				vrt.Freeze()
				w.WriteErr = nil
				vrt.Sleep(sec)
				vrt.Quiesce()
				if vrt.Elapsed() > 6*sec {
					return // the nodes may have been forgotten
				}
				if p == "C18" {
					l.check(owners(as...), 0, 0)
					for u := 1; u <= 4; u++ {
						l.final(uni(byte(u)))
					}
				}
			}})
	}
}
