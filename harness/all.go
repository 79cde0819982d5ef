package main

import (
	"net"
	"strings"
	"syscall"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

type startStop interface {
	Start() error
	Stop()
}

// set for each execution
var (
	restarted bool
	lProp     string
	loudly    bool
)

// launch starts an object.  In the variants for restarted objects it has failed to
// start, or was started, used and stopped, before; what happened then is forgotten.
func launch(s startStop) error {
	if !restarted {
		return s.Start()
	}
	restarted = false
	w := vnet.W()
	frozen := vrt.Frozen()
	onSend, bindErr, writeErr := w.OnSend, w.BindErr, w.WriteErr
	w.OnSend, w.BindErr, w.WriteErr = nil, nil, nil
	vrt.Freeze()
	switch choose(2, "life before") {
	case 0:
		if err := s.Start(); err != nil {
			fail("Start: %v", err)
		}
		vrt.Quiesce()
		if lProp != "C11" {
			w.Inject(host(9), poll())
		}
		w.Inject(host(9), []byte("garbage"))
		if lProp != "C11" {
			reply(w, outNode(50, 1, 2, 7))
			reply(w, outNode(51, 3))
		}
		vrt.Quiesce()
		vrt.Sleep(1100 * ms)
		if c, ok := s.(*artnet.Controller); ok {
			c.SendDMXToAddress(payload(uni(1), 9, 9), uni(1))
			c.SendDMXToAddress(payload(uni(7), 9, 9), uni(7))
		}
		vrt.Sleep(1230 * ms)
		s.Stop()
	case 1:
		w.BindErr = func(*net.UDPAddr) error { return sysErr("bind", syscall.EADDRINUSE) }
		if s.Start() == nil {
			fail("Start succeeded although the address is taken")
		}
	}
	vrt.Quiesce()
	w.Forget()
	vrt.Rebase()
	w.OnSend, w.BindErr, w.WriteErr = onSend, bindErr, writeErr
	if !frozen {
		vrt.Unfreeze()
	}
	return s.Start()
}

// registerLingering adds a variant with lingering goroutines to each scenario of
// the properties that hold even if goroutines are starved.
func registerLingering() {
	for _, s := range scenarios[:len(scenarios):len(scenarios)] {
		switch s.Prop {
		case "C10", "C11", "C12", "C13", "C14", "C16", "C21":
		default:
			continue
		}
		switch s.Name {
		case "c10-own-address", "c10-controller", "c10-controller-small", "c12-controller-partial", "c12-contents":
			continue // these also judge how fast things happen
		case "c16-sequences", "c16-same-address-twice", "c11-registration", "c11-values":
			continue // too many
		}
		if s.NoLinger || s.Linger > 0 || s.Prop == "C14" && !strings.HasPrefix(s.Name, "c14-node") {
			continue
		}
		c := *s
		c.Name += "-lingering"
		c.What += "; one goroutine (each of the first 9, or all from the 5th or 7th on) waits 1.2 s before each of its steps, up to 3 s in all"
		c.Linger = 1200 * ms
		c.StarveMax = 9
		c.NoStarve = false
		c.NoRestart = true
		c.D = [2]int{0, 0}
		c.Policies = []int{vrt.OldestFirst}
		scn(&c)
	}
}

// registerLoud adds a variant in which everything is logged, as with the default
// logger, to the scenarios about races and to one or two of each other property.
func registerLoud() {
	n := map[string]int{}
	for _, s := range scenarios[:len(scenarios):len(scenarios)] {
		if s.Prop != "C22" && (n[s.Prop] == 2 || s.Linger > 0 || s.Prop == "C09") {
			continue
		}
		n[s.Prop]++
		c := *s
		c.Name += "-loud"
		c.What += "; everything is logged"
		c.Loud = true
		c.NoRestart = true
		c.D = [2]int{1, 1}
		c.Starve = [2]int{0, 0}
		if s.Name == "c22-several" || s.Name == "c22-functions" {
			c.D = [2]int{0, 0}
		}
		if s.Prop != "C22" {
			c.D = [2]int{0, 0}
			c.NoStarve = true
			c.Policies = []int{vrt.OldestFirst}
		}
		scn(&c)
	}
}

// registerAll adds a variant with restarted objects to each scenario of the
// properties that are about running nodes and controllers.
func registerAll() {
	registerLingering()
	registerLoud()
	for _, s := range scenarios[:len(scenarios):len(scenarios)] {
		switch s.Prop {
		case "C09", "C14", "C22", "C24", "C25":
			continue
		}
		if s.NoRestart {
			continue
		}
		c := *s
		c.Name += "-restarted"
		c.What += "; the node or controller has been started and stopped, or has failed to start, before"
		c.Restarted = true
		c.NoStarve = true
		for i := range c.D {
			if c.D[i] > i {
				c.D[i] = i
			}
		}
		if len(c.Policies) != 1 {
			c.Policies = []int{vrt.OldestFirst, vrt.RoundRobin}
		}
		scn(&c)
	}
}
