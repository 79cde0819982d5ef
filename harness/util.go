package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/ref"
	"github.com/jsimonetti/go-artnet/zz_vrt/vnet"
	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
	"github.com/sirupsen/logrus"
)

const (
	ms  = time.Millisecond
	sec = time.Second
)

var ownIP = net.IP{2, 0, 0, 1}
var defaultBroadcast = net.UDPAddr{IP: net.IP{2, 255, 255, 255}, Port: 6454}

func host(n int) net.UDPAddr { return net.UDPAddr{IP: net.IP{2, 0, 0, byte(n)}, Port: 6454} }

// quiet is a logger that drops everything; loud formats everything and then
// drops it (so that what is logged is really looked at).
func quiet() artnet.Logger {
	if loudly {
		return loud()
	}
	l := logrus.New()
	l.Out = io.Discard
	l.Level = logrus.PanicLevel
	l.SetNoLock()
	return artnet.NewLogger(logrus.NewEntry(l))
}

func loud() artnet.Logger { // like NewDefaultLogger, without output
	l := logrus.New()
	l.Out = io.Discard
	l.Level = logrus.DebugLevel
	l.Formatter = &logrus.TextFormatter{DisableColors: true}
	l.SetNoLock()
	return artnet.NewLogger(logrus.NewEntry(l))
}

func fail(f string, a ...any) { vrt.Fail(f, a...) }

func choose(n int, kind string) int {
	p := vrt.Choose(n, kind)
	if vrt.Tracing() {
		vrt.Logf("choose %s: %d of %d", kind, p, n)
	}
	return p
}

func pick[T any](kind string, xs ...T) T { return xs[choose(len(xs), kind)] }

// ---- datagrams ----

var kPoll, kReply, kDMX, kSync = ref.ByName("ArtPoll"), ref.ByName("ArtPollReply"), ref.ByName("ArtDMX"), ref.ByName("ArtSync")

func poll() []byte { return kPoll.Put(kPoll.New(), "TalkToMe", 2) }

// filled returns a well-formed datagram of the kind with every field filled with
// values derived from seed.
func filled(k *ref.Kind, seed int) []byte {
	d := k.New()
	for i := range k.Fields {
		f := &k.Fields[i]
		v := make([]byte, f.Size)
		for j := range v {
			v[j] = byte(seed*31 + f.Off + j*7)
		}
		switch k.Name + "." + f.Name {
		case "ArtPollReply.Port", "ArtCommand.ESTAmanufacturer":
			continue
		case "ArtPollReply.Style":
			v[0] = byte(seed) % 7
		case "ArtDMX.Length":
			n := 512 - (seed%256)*2
			v[0], v[1] = byte(n>>8), byte(n)
		}
		k.Put(d, f.Name, v...)
	}
	if k.Name == "ArtDMX" {
		n := int(d[16])<<8 | int(d[17])
		d = d[:18+n]
	}
	return d
}

type fieldValue struct {
	name  string
	value []byte
}

// announcement describes a poll reply.
type announcement struct {
	ip       net.IP
	style    byte
	name     string
	net, sub byte
	ports    []byte // port type bytes, one per channel
	swin     []byte
	swout    []byte
	numPorts int // -1: len(ports)
	bind     byte
	fields   []fieldValue // what further fields contain
}

func (a announcement) bytes() []byte {
	d := kReply.New()
	kReply.Put(d, "IPAddress", a.ip.To4()...)
	kReply.Put(d, "Style", a.style)
	kReply.Put(d, "ShortName", []byte(a.name)...)
	kReply.Put(d, "LongName", []byte(a.name+" long")...)
	kReply.Put(d, "NetSwitch", a.net)
	kReply.Put(d, "SubSwitch", a.sub)
	kReply.Put(d, "PortTypes", a.ports...)
	kReply.Put(d, "SwIn", a.swin...)
	kReply.Put(d, "SwOut", a.swout...)
	n := len(a.ports)
	if a.numPorts > 0 {
		n = a.numPorts
	}
	kReply.Put(d, "NumPorts", byte(n>>8), byte(n))
	kReply.Put(d, "BindIndex", a.bind)
	gi, gout := []byte{}, []byte{}
	for i := range a.ports {
		gi = append(gi, byte(0x80>>i))
		gout = append(gout, byte(0x10<<i))
	}
	if len(gi) > 4 {
		gi, gout = gi[:4], gout[:4]
	}
	kReply.Put(d, "GoodInput", gi...)
	kReply.Put(d, "GoodOutput", gout...)
	for _, f := range a.fields {
		kReply.Put(d, f.name, f.value...)
	}
	return d
}

// expectConfig is the configuration that a poll reply announces (the independent
// reading of the format).
func expectConfig(d []byte) artnet.NodeConfig {
	g := func(f string) []byte { return kReply.Get(d, f) }
	u16 := func(f string) uint16 { b := g(f); return uint16(b[0])<<8 | uint16(b[1]) }
	str := func(f string) string {
		s := []rune{}
		for _, c := range g(f) {
			if c == 0 {
				break
			}
			s = append(s, rune(c))
		}
		return string(s)
	}
	c := artnet.NodeConfig{
		OEM: u16("Oem"), Version: u16("VersionInfo"), BiosVersion: g("UBEAVersion")[0], Manufacturer: str("ESTAmanufacturer"),
		Type: code.StyleCode(g("Style")[0]), Name: str("ShortName"), Description: str("LongName"),
		Ethernet: net.HardwareAddr(g("Macaddress")), IP: net.IP(g("IPAddress")), BindIP: net.IP(g("BindIP")), BindIndex: g("BindIndex")[0],
		Port: 6454, Status1: code.Status1(g("Status1")[0]), Status2: code.Status2(g("Status2")[0]),
	}
	for _, r := range g("NodeReport") {
		c.Report = append(c.Report, code.NodeReportCode(r))
	}
	nt, sub := g("NetSwitch")[0]&0x7f, g("SubSwitch")[0]&0x0f
	c.BaseAddress = artnet.Address{Net: nt, SubUni: sub << 4}
	n := int(u16("NumPorts"))
	pt, gi, gout, swin, swout := g("PortTypes"), g("GoodInput"), g("GoodOutput"), g("SwIn"), g("SwOut")
	for i := 0; i < n && i < 4; i++ {
		if pt[i]&0x80 != 0 {
			c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: nt, SubUni: sub<<4 | swout[i]&0x0f}, Type: code.PortType(pt[i]), Status: code.GoodOutput(gout[i])})
		}
		if pt[i]&0x40 != 0 {
			c.InputPorts = append(c.InputPorts, artnet.InputPort{Address: artnet.Address{Net: nt, SubUni: sub<<4 | swin[i]&0x0f}, Type: code.PortType(pt[i]), Status: code.GoodInput(gi[i])})
		}
	}
	return c
}

// expectReply is the poll reply by which a node with this configuration has to
// describe itself.
func expectReply(c artnet.NodeConfig) []byte {
	d := kReply.New()
	put := func(f string, v ...byte) { kReply.Put(d, f, v...) }
	put("IPAddress", c.IP.To4()...)
	put("VersionInfo", byte(c.Version>>8), byte(c.Version))
	put("NetSwitch", c.BaseAddress.Net)
	put("SubSwitch", c.BaseAddress.SubUni>>4)
	put("Oem", byte(c.OEM>>8), byte(c.OEM))
	put("UBEAVersion", c.BiosVersion)
	put("Status1", byte(c.Status1))
	put("Status2", byte(c.Status2))
	clipTo := func(s string, n int) []byte {
		if len(s) > n {
			s = s[:n]
		}
		return []byte(s)
	}
	put("ESTAmanufacturer", clipTo(c.Manufacturer, 2)...)
	put("ShortName", clipTo(c.Name, 18)...)
	put("LongName", clipTo(c.Description, 64)...)
	var rep []byte
	for _, r := range c.Report {
		rep = append(rep, byte(r))
	}
	put("NodeReport", rep...)
	n := len(c.InputPorts)
	if len(c.OutputPorts) > n {
		n = len(c.OutputPorts)
	}
	put("NumPorts", 0, byte(n))
	var pt, gi, gout, swin, swout [4]byte
	for i, p := range c.InputPorts {
		pt[i] |= 0x40 | byte(p.Type)&0x1f
		gi[i] = byte(p.Status)
		swin[i] = p.Address.SubUni & 0x0f
	}
	for i, p := range c.OutputPorts {
		pt[i] |= 0x80 | byte(p.Type)&0x1f
		gout[i] = byte(p.Status)
		swout[i] = p.Address.SubUni & 0x0f
	}
	put("PortTypes", pt[:]...)
	put("GoodInput", gi[:]...)
	put("GoodOutput", gout[:]...)
	put("SwIn", swin[:]...)
	put("SwOut", swout[:]...)
	put("Style", byte(c.Type))
	put("Macaddress", c.Ethernet...)
	put("BindIP", c.BindIP.To4()...)
	put("BindIndex", c.BindIndex)
	return d
}

// ---- looking at what was sent ----

func op(d []byte) uint16 {
	if len(d) < 10 || !bytes.Equal(d[:8], ref.ID[:]) {
		return 0
	}
	return uint16(d[8]) | uint16(d[9])<<8
}

func sentOf(w *vnet.World, o uint16) (r []*vnet.Datagram) {
	for _, d := range w.Sent {
		if op(d.Data) == o {
			r = append(r, d)
		}
	}
	return
}

func describe(d []byte) string {
	k := ref.ByOp(op(d))
	if k == nil {
		if len(d) > 24 {
			d = d[:24]
		}
		return fmt.Sprintf("% x", d)
	}
	s := k.Name
	if k == kDMX && len(d) >= 18 {
		s += fmt.Sprintf(" seq %d addr %d:%d data % x..", d[12], d[15], d[14], d[18:22])
	}
	return s
}

func sameAddr(a, b net.UDPAddr) bool { return a.IP.Equal(b.IP) && a.Port == b.Port }

// checkReplies demands that exactly n poll replies were sent since mark, all with
// these contents and to this address, and nothing else but what other allows.
func checkReplies(w *vnet.World, mark, n int, want []byte, to net.UDPAddr, other func(d *vnet.Datagram) bool) {
	got := 0
	for _, d := range w.Sent[mark:] {
		if op(d.Data) != 0x2100 {
			if other != nil && other(d) {
				continue
			}
			fail("unexpected packet sent to %v: %s", d.To.String(), describe(d.Data))
		}
		got++
		if !bytes.Equal(d.Data, want) {
			fail("poll reply does not describe the configuration: %s", diff(d.Data, want))
		}
		if !sameAddr(d.To, to) {
			fail("poll reply sent to %v, want %v", d.To.String(), to.String())
		}
	}
	if got != n {
		fail("%d poll replies sent, want %d\n%s", got, n, vrt.Dump())
	}
}

func diff(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			name := ""
			if k := ref.ByOp(op(want)); k != nil {
				for _, f := range k.Fields {
					if i >= f.Off && i < f.Off+f.Size {
						name = " (" + f.Name + ")"
					}
				}
			}
			return fmt.Sprintf("byte %d%s is %#x, want %#x", i, name, got[i], want[i])
		}
	}
	return "equal"
}

func noGoroutines(when string) {
	if l := vrt.Live(); len(l) > 0 {
		fail("goroutines left %s:\n  %s", when, strings.Join(l, "\n  "))
	}
}

func sysErr(op string, e error) error { return os.NewSyscallError(op, e) }

var errRefused = sysErr("recvfrom", syscall.ECONNREFUSED)
var errDown = sysErr("recvfrom", syscall.ENETDOWN)
var errNet = sysErr("sendto", syscall.ENETUNREACH)

// mustReturn runs f in a harness goroutine and fails if it does not come back
// within d of virtual time.
func mustReturn(what string, d time.Duration, f func()) {
	g := vrt.GoSys(what, f)
	vrt.Label("waiting for " + what)
	vrt.Quiesce()
	for t := time.Duration(0); !g.Done(); t += 100 * ms {
		if t >= d {
			fail("%s has not returned after %v\n%s", what, d, vrt.Dump())
		}
		vrt.Sleep(100 * ms)
		vrt.Quiesce()
	}
	vrt.Join(g)
	vrt.Label("")
}

var _ = errors.New
var _ = sort.Ints
var _ = reflect.DeepEqual
var _ packet.ArtNetPacket
