package main

import (
	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// The scenarios of C22 run in a binary built with the race detector, which sees
// the happens-before relation of the virtual synchronisation operations only: the
// hand-overs of the scheduler do not order anything.  The harness must not share
// memory between its goroutines either, so nothing is recorded here.

// scribble uses a packet as its owner may.
func scribble(p packet.ArtNetPacket) {
	switch x := p.(type) {
	case *packet.ArtDMXPacket:
		for i := range x.Data {
			x.Data[i] ^= 0x55
		}
		x.Sequence++
	case *packet.ArtPollReplyPacket:
		x.ShortName[0]++
		x.SwOut[0]++
	case *packet.ArtNzsPacket:
		x.Data[3]++
	case *packet.ArtDiagDataPacket:
		x.Data[2]++
	}
}

func raceNode(w *vnet.World, style code.StyleCode) *artnet.Node {
	n := artnet.NewNode("a node", style, ownIP, quiet())
	n.Config.BaseAddress = artnet.Address{Net: 1, SubUni: 0x20}
	n.Config.OutputPorts = []artnet.OutputPort{{Address: artnet.Address{Net: 1, SubUni: 0x21}}}
	for _, k := range []code.OpCode{code.OpDMX, code.OpSync, code.OpNzs, code.OpDiagData} {
		n.RegisterCallback(k, scribble)
	}
	if err := n.Start(); err != nil {
		fail("Start: %v", err)
	}
	return n
}

func init() {
	var mixed [][]byte
	for i, k := range ref.Kinds {
		mixed = append(mixed, filled(k, i+1))
	}
	scn(&Scenario{Prop: "C22", Name: "c22-node", D: [2]int{1, 2},
		What: "node (style node or controller): polls, ArtDmx packets, all packet kinds or malformed datagrams in flight; callbacks that change their packets; registration calls and read/write errors alongside; Stop from one or two goroutines",
		Run: func() {
			w := vnet.NewWorld()
			n := raceNode(w, pick("style", code.StNode, code.StController))
			kind := choose(4, "traffic")
			for i := 0; i < 3; i++ {
				switch kind {
				case 0:
					w.Inject(host(9), poll())
				case 1:
					w.Inject(host(9), filled(kDMX, i+1))
				case 2:
					w.Inject(host(9), mixed[(i*5)%len(mixed)])
					w.Inject(host(9), mixed[(i*5+2)%len(mixed)])
				case 3:
					fault(w, i*4)
					w.Inject(host(9), poll())
				}
			}
			with := choose(3, "alongside")
			var g *vrt.G
			switch with {
			case 1:
				g = vrt.GoSys("registering", func() {
					n.RegisterCallback(code.OpPoll, scribble)
					n.DeregisterCallback(code.OpDMX)
				})
			case 2:
				g = vrt.GoSys("stopping", n.Stop)
			}
			steps(pick("steps", 0, 6))
			n.Stop()
			if g != nil {
				vrt.Join(g)
			}
			vrt.Quiesce()
		}})

	scn(&Scenario{Prop: "C22", Name: "c22-node-stop-in-callback", D: [2]int{1, 2},
		What: "a callback stops the node amid polls, ArtDmx packets or other kinds",
		Run: func() {
			w := vnet.NewWorld()
			n := artnet.NewNode("a node", code.StNode, ownIP, quiet())
			n.RegisterCallback(code.OpSync, func(packet.ArtNetPacket) { n.Stop() })
			n.RegisterCallback(code.OpDMX, scribble)
			if err := n.Start(); err != nil {
				fail("Start: %v", err)
			}
			kind := choose(2, "traffic")
			traffic(w, kind, 2)
			w.Inject(host(9), kSync.New())
			traffic(w, kind, 2)
			if choose(2, "alongside") == 1 {
				n.Stop()
			}
			vrt.Quiesce()
		}})

	scn(&Scenario{Prop: "C22", Name: "c22-node-restart", D: [2]int{1, 2},
		What: "a node stopped with packets in flight, callbacks registered and deregistered, started again",
		Run: func() {
			w := vnet.NewWorld()
			n := raceNode(w, code.StNode)
			kind := choose(3, "traffic")
			traffic(w, kind, 3)
			steps(pick("steps", 0, 3, 7, 12))
			n.Stop()
			n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) {})
			n.DeregisterCallback(code.OpSync)
			if err := n.Start(); err != nil {
				fail("Start: %v", err)
			}
			traffic(w, kind, 2)
			vrt.Quiesce()
			n.Stop()
			vrt.Quiesce()
		}})

	scn(&Scenario{Prop: "C22", Name: "c22-controller", D: [2]int{1, 2},
		What: "controller: frames and polls due, poll replies (new node, changed ports, shared address), foreign polls, 2 writers, Stop from one or two goroutines",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			c := startCtl(10)
			vrt.Sleep(50 * ms)
			reply(w, outNode(50, 1, 2))
			vrt.Quiesce()
			kind := choose(4, "traffic")
			stop2 := choose(2, "second stop")
			vrt.Sleep(pick("at", 50*ms, 2950*ms))
			vrt.Unfreeze()
			var gs []*vrt.G
			for x := 0; x < 2; x++ {
				gs = append(gs, vrt.GoSys("writer", func() {
					c.SendDMXToAddress([512]byte{1}, uni(1))
					c.SendDMXToAddress([512]byte{2}, uni(3))
				}))
			}
			switch kind {
			case 1:
				reply(w, outNode(50, 1, 3))
			case 2:
				reply(w, outNode(51, 1, 4))
				reply(w, outNode(50, 1, 2))
			case 3:
				w.Inject(host(9), poll())
				reply(w, announcement{ip: ip4(52), style: 1, ports: []byte{0xc0}, swin: []byte{1}, swout: []byte{9}})
			}
			if stop2 == 1 {
				gs = append(gs, vrt.GoSys("stopping", c.Stop))
			}
			vrt.Sleep(110 * ms)
			c.Stop()
			for _, g := range gs {
				vrt.Join(g)
			}
			vrt.Quiesce()
		}})

	scn(&Scenario{Prop: "C22", Name: "c22-controller-early", D: [2]int{1, 2}, Early: true,
		What: "the same with timers that fire while goroutines are runnable; Stop in the middle",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			c := startCtl(10)
			vrt.Sleep(50 * ms)
			reply(w, outNode(50, 1, 2))
			vrt.Quiesce()
			kind := choose(3, "traffic")
			vrt.Sleep(pick("at", 50*ms, 2950*ms))
			vrt.Unfreeze()
			g := vrt.GoSys("writer", func() {
				c.SendDMXToAddress([512]byte{1}, uni(1))
				c.SendDMXToAddress([512]byte{2}, uni(2))
			})
			switch kind {
			case 1:
				reply(w, outNode(50, 1, 3))
			case 2:
				w.Inject(host(9), poll())
				reply(w, outNode(51, 2))
			}
			c.Stop()
			vrt.Join(g)
			vrt.Quiesce()
		}})

	scn(&Scenario{Prop: "C22", Name: "c22-start", D: [2]int{1, 2},
		What: "the first moments of a controller: Start, replies, writers, Stop",
		Run: func() {
			w := vnet.NewWorld()
			c := startCtl(10)
			reply(w, outNode(50, 1))
			g := vrt.GoSys("writer", func() { c.SendDMXToAddress([512]byte{1}, uni(1)) })
			if choose(2, "frame") == 1 {
				vrt.Sleep(100 * ms)
			}
			c.Stop()
			vrt.Join(g)
			vrt.Quiesce()
		}})

	scn(&Scenario{Prop: "C22", Name: "c22-forget", D: [2]int{1, 2},
		What: "a node is forgotten at the instant of a frame, a poll, a writer and a reply of another node or its own return",
		Run: func() {
			w := vnet.NewWorld()
			vrt.Freeze()
			c := startCtl(10)
			vrt.Sleep(50 * ms)
			reply(w, outNode(50, 1, 2))
			reply(w, outNode(51, 2))
			kind := choose(3, "traffic")
			vrt.Sleep(9*sec - vrt.Elapsed())
			vrt.Unfreeze()
			g := vrt.GoSys("writer", func() {
				c.SendDMXToAddress([512]byte{1}, uni(1))
				c.SendDMXToAddress([512]byte{2}, uni(2))
			})
			switch kind {
			case 1:
				reply(w, outNode(50, 1))
			case 2:
				reply(w, outNode(52, 1))
			}
			vrt.Sleep(110 * ms)
			vrt.Join(g)
			c.Stop()
			vrt.Quiesce()
		}})
}
