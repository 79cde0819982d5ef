package main

import (
	"net"
	"strings"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// rest is what is there when nothing happens any more.
type rest struct{ goroutines, sockets int }

// atRest waits and counts.
func atRest(w *vnet.World) rest {
	vrt.Sleep(30 * sec)
	vrt.Quiesce()
	return rest{len(vrt.Live()), len(w.Open())}
}

func (r rest) notAbove(b rest, what string) {
	if r.goroutines > b.goroutines {
		fail("%s: %d goroutines at rest, %d after the same before\n  %s", what, r.goroutines, b.goroutines, strings.Join(vrt.Live(), "\n  "))
	}
	if r.sockets > b.sockets {
		fail("%s: %d sockets, %d after the same before", what, r.sockets, b.sockets)
	}
}

func init() {
	nodeLoads := []string{"polls", "packets for a callback", "all kinds", "malformed datagrams and read errors", "own packets", "failing writes", "callbacks that block for a while", "all of it"}
	scn(&Scenario{Prop: "C26", Name: "c26-node", D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 400000,
		What: "a node handles 25 of one of 7 kinds of traffic (or all of them), at once or 1 ms apart, 5 times over: as many goroutines and sockets at rest after the fifth time as after the first",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			load := choose(len(nodeLoads), "load")
			apart := choose(2, "apart") == 1
			var g *gate
			n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) {
				if g != nil {
					g.wait()
				}
			})
			n.RegisterCallback(code.OpSync, func(p packet.ArtNetPacket) {})
			if err := launch(n); err != nil {
				fail("Start: %v", err)
			}
			var first rest
			for round := 0; round < 5; round++ {
				g = nil
				if load >= 6 {
					g = &gate{}
				}
				if load == 5 || load == 7 {
					w.WriteErr = func(*vnet.Datagram) error { return errNet }
				}
				for i := 0; i < 25; i++ {
					if load == 0 || load == 5 || load == 7 {
						w.Inject(host(9), poll())
					}
					if load == 1 || load == 6 || load == 7 {
						w.Inject(host(9), filled(kDMX, i))
					}
					if load == 2 || load == 7 {
						w.Inject(host(8), filled(ref.Kinds[i%12], i))
					}
					if load == 3 || load == 7 {
						fault(w, i%faults)
					}
					if load == 4 || load == 7 {
						w.Inject(host(1), poll())
						own := filled(kDMX, i)
						w.Inject(net.UDPAddr{IP: ownIP, Port: 6454}, own)
					}
					if apart {
						vrt.Sleep(ms)
					}
				}
				vrt.Quiesce()
				w.WriteErr = nil
				if g != nil {
					vrt.Sleep(2 * sec)
					g.release()
				}
				r := atRest(w)
				if round == 0 {
					first = r
				} else {
					r.notAbove(first, nodeLoads[load])
				}
			}
			mustReturn("Stop", 5*sec, n.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})

	ctlLoads := []string{"one node replying", "nodes that come and go", "moving ports", "writers", "foreign polls", "failing writes", "all of it"}
	scn(&Scenario{Prop: "C26", Name: "c26-controller", NoStarve: true, D: [2]int{0, 0}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 1000000,
		What: "a controller handles one of 6 kinds of load (or all of them) for 12 s, 4 times over, each followed by 30 s of rest: as many goroutines and sockets after the fourth time as after the first",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(pick("fps", 4, 20))
			load := choose(len(ctlLoads), "load")
			has := func(i int) bool { return load == i || load == len(ctlLoads)-1 }
			var first rest
			for round := 0; round < 4; round++ {
				if has(5) {
					w.WriteErr = func(*vnet.Datagram) error { return errNet }
				}
				for k := 0; k < 12; k++ {
					reply(w, outNode(50, 1, 2))
					if has(1) {
						for i := 0; i < 14; i++ {
							reply(w, outNode(60+(k*14+i)%40, byte(i)).at(byte(k), 1))
						}
					}
					if has(2) {
						reply(w, outNode(51, byte(k), byte(k+1), byte(k+2)))
					}
					if has(3) {
						for i := 0; i < 20; i++ {
							c.SendDMXToAddress([512]byte{byte(i)}, artnet.Address{SubUni: byte(i)})
						}
					}
					if has(4) {
						for i := 0; i < 14; i++ {
							w.Inject(host(9), poll())
						}
					}
					vrt.Sleep(sec)
				}
				w.WriteErr = nil
				vrt.Quiesce()
				r := atRest(w)
				if round == 0 {
					first = r
				} else {
					r.notAbove(first, ctlLoads[load])
				}
			}
			mustReturn("Stop", 5*sec, c.Stop)
			vrt.Sleep(3 * sec)
			noGoroutines("after Stop")
		}})

	scn(&Scenario{Prop: "C26", Name: "c26-cycles", NoRestart: true, D: [2]int{0, 1}, Policies: []int{vrt.OldestFirst, vrt.RoundRobin}, MaxSteps: 400000,
		What: "a node or controller is started and stopped 6 times, at once, after traffic or 4 s later; or its Start fails in between, or Start and Stop are called twice: no goroutine and no socket is left, and a running one has as many as after the first start",
		Run: func() {
			w := vnet.NewWorld()
			ctl := choose(2, "controller") == 1
			how := choose(5, "how")
			var start func() error
			var stop func()
			if ctl {
				c := artnet.NewController("ctl", ownIP, quiet(), artnet.MaxFPS(4))
				start, stop = c.Start, c.Stop
			} else {
				n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
				start, stop = n.Start, n.Stop
			}
			var up rest
			for i := 0; i < 6; i++ {
				if how == 3 {
					other, err := vnet.ListenPacket("udp4", ":6454")
					if err != nil {
						fail("harness: %v", err)
					}
					if start() == nil {
						fail("Start gives no error though the address is taken")
					}
					other.Close()
				}
				if err := start(); err != nil {
					fail("Start: %v", err)
				}
				switch how {
				case 1, 4:
					for j := 0; j < 15; j++ {
						w.Inject(host(9), poll())
						if ctl {
							reply(w, outNode(50+j, byte(j)))
						}
					}
				case 2:
					vrt.Sleep(4 * sec)
				}
				if how == 4 {
					if start() == nil {
						fail("a second Start gives no error")
					}
				}
				if how > 0 {
					r := atRest(w)
					if i == 0 {
						up = r
					} else {
						r.notAbove(up, "running")
					}
				}
				mustReturn("Stop", 5*sec, stop)
				if how == 4 {
					mustReturn("Stop", 5*sec, stop)
				}
				down := time.Duration(0)
				if how == 2 {
					down = 4 * sec
				}
				vrt.Sleep(down)
				vrt.Quiesce()
				noGoroutines("after Stop")
				if len(w.Open()) != 0 {
					fail("%d sockets are open after Stop", len(w.Open()))
				}
			}
		}})
}
