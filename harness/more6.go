package main

import (
	"fmt"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

func init() {
	// all 32768 addresses, 256 in each execution
	all := func() {
		w := vnet.NewWorld()
		l := newLedger(w)
		nt := byte(choose(128, "net"))
		c := startCtl(40)
		interval := 25 * ms
		vrt.Sleep(3 * ms)
		b := newBook()
		var as []announcement
		for i := 0; i < 64; i++ {
			a := announcement{ip: ip4(50 + i), name: fmt.Sprint("node ", i), net: nt, sub: byte(i / 4)}
			for k := 0; k < 4; k++ {
				u := byte(i%4*4 + k)
				a.ports = append(a.ports, 0xc0)
				a.swout = append(a.swout, u)
				a.swin = append(a.swin, 15-u)
			}
			as = append(as, a)
		}
		own := owners(as...)
		if len(own) != 256 {
			fail("harness: %d addresses", len(own))
		}
		tell := func() {
			for _, a := range as {
				reply(w, a)
				b.learn(a)
				vrt.Quiesce()
			}
		}
		tell()
		from := vrt.Elapsed()
		b.check(c, "after the replies")
		vrt.Sleep(30 * ms)
		for r := 0; r < 2; r++ {
			for _, a := range as {
				for _, x := range a.addrs() {
					l.set(c, 1, x, false, false)
					// nobody has this one
					x.Net ^= 1
					c.SendDMXToAddress([512]byte{1, 2, 3}, x)
				}
			}
			vrt.Sleep(60 * ms)
			if r == 0 {
				tell()
				b.check(c, "after the second replies")
			}
		}
		vrt.Sleep(300 * ms)
		vrt.Quiesce()
		end := vrt.Elapsed()
		l.check(own, interval, end)
		seq := map[string]int{}
		for _, d := range w.Sent {
			if op(d.Data) != 0x5000 {
				continue
			}
			ip := d.To.IP.String()
			if seq[ip]++; int(d.Data[12]) != (seq[ip]-1)%255+1 {
				fail("packet %d to %s has sequence number %d", seq[ip], ip, d.Data[12])
			}
		}
		for _, a := range as {
			for _, x := range a.addrs() {
				l.final(x)
				rhythm(l, x, interval, from, end)
			}
		}
		mustReturn("Stop", 5*sec, c.Stop)
	}
	for _, p := range []string{"16", "18", "19", "20"} {
		scn(&Scenario{Prop: "C" + p, Name: "c" + p + "-all-addresses", NoStarve: true, NoRestart: true, NoLinger: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 1000000,
			What: "all 32768 addresses: in each net 64 nodes with 4 outputs and 4 inputs; tables after each round of replies; every universe set twice (and an address of another net, which nobody has), sent, refreshed and counted",
			Run:  all})
	}

	scn(&Scenario{Prop: "C24", Name: "c24-all-addresses", NoStarve: true, NoRestart: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst}, MaxSteps: 1000000,
		What: "all 32768 addresses: in each sub-net a controller and 4 nodes with 4 outputs (and 0 to 4 inputs) each; discovery, values in 2 rounds",
		Run: func() {
			w := routed()
			nt := byte(choose(128, "net"))
			c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(10))
			var ps []*peer
			first := 4 * choose(16, "sub-net")
			for i := first; i < first+4; i++ {
				var outs []artnet.Address
				for k := 0; k < 4; k++ {
					outs = append(outs, artnet.Address{Net: nt, SubUni: byte(i*4 + k)})
				}
				ins := 0
				if i%4 == 0 {
					ins = i / 4 % 5
				}
				p := newPeer(w, 50+i, outs, ins)
				p.start()
				ps = append(ps, p)
			}
			w.HostIP = ownIP
			if err := c.Start(); err != nil {
				fail("Start: %v", err)
			}
			vrt.Sleep(3*sec + 1*ms)
			vrt.Quiesce()
			knows(c, "one poll interval after the start", ps...)
			lightUp(c, 1, 100*ms, ps...)
			lightUp(c, 2, 100*ms, ps...)
			mustReturn("Stop", 5*sec, c.Stop)
			for _, p := range ps {
				mustReturn("Stop", 5*sec, p.n.Stop)
			}
		}})
}
