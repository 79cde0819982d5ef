// Package vnet stands in for package net: UDP sockets live in a virtual network
// that the harness scripts and observes.  Everything else is an alias of package
// net (alias.go, generated).
package vnet

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/netip"
	"os"
	"syscall"
	"time"
	"unsafe"

	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

// Datagram is one datagram (or read error) queued at, or sent from, a socket.
type Datagram struct {
	At   time.Duration // virtual time
	Step int           // number of network events before
	From net.UDPAddr
	To   net.UDPAddr
	Data []byte
	Err  error
	Sock *UDPConn
}

// World is the virtual network of an execution.
type World struct {
	Socks []*UDPConn
	// Sent lists the successful writes, in order; Failed those that failed.
	Sent   []*Datagram
	Failed []*Datagram
	// BindErr, if set, decides whether a bind fails.
	BindErr func(a *net.UDPAddr) error
	// WriteErr, if set, decides whether a write fails.
	WriteErr func(d *Datagram) error
	// HostIP is the host on which sockets are bound next: the source address of
	// sockets bound to the wildcard address.
	HostIP net.IP
	// Broadcast, if set, recognises broadcast addresses; Route switches on the
	// delivery of sent datagrams to the other sockets.
	Broadcast func(ip net.IP) bool
	Route     bool
	// OnSend is called after each successful write.
	OnSend func(d *Datagram)
	Binds  int
	Events int
	h      uint64
}

// NewWorld creates the network of the current execution.
//
//go:norace
func NewWorld() *World {
	w := &World{HostIP: net.IP{2, 0, 0, 1}}
	vrt.E.World = w
	return w
}

//go:norace
func W() *World {
	if vrt.E == nil {
		return nil
	}
	w, _ := vrt.E.World.(*World)
	return w
}

// Mark is the number of datagrams sent so far; that it was looked at now becomes
// part of the state.
//
//go:norace
func (w *World) Mark() int {
	vrt.LogEvent(0x3a)
	return len(w.Sent)
}

// Forget drops everything that happened so far.
//
//go:norace
func (w *World) Forget() {
	vrt.LogEvent(0x3b)
	w.Socks, w.Sent, w.Failed, w.Binds, w.Events = nil, nil, nil, 0, 0
}

// Open lists the open sockets.
//
//go:norace
func (w *World) Open() []*UDPConn {
	var r []*UDPConn
	for _, s := range w.Socks {
		if !s.closed {
			r = append(r, s)
		}
	}
	return r
}

//go:norace
func clone(b []byte) []byte {
	c := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		c[i] = b[i]
	}
	return c
}

// Inject queues a datagram at every open socket bound to the port it is for.
//
//go:norace
func (w *World) Inject(from net.UDPAddr, data []byte) int {
	n := 0
	for _, s := range w.Socks {
		if !s.closed {
			s.Inject(from, data)
			n++
		}
	}
	return n
}

// InjectErr makes a later read of every open socket fail.
//
//go:norace
func (w *World) InjectErr(err error) {
	for _, s := range w.Socks {
		if !s.closed {
			s.q = append(s.q, &Datagram{Err: err})
			vrt.Touch(&s.h, 0x70)
		}
	}
}

// UDPConn is a virtual UDP socket.
type UDPConn struct {
	w        *World
	Local    net.UDPAddr
	Host     net.IP
	remote   *net.UDPAddr
	q        []*Datagram
	closed   bool
	h        uint64
	rdl, wdl time.Time
	rdlGen   int
	s        byte
	Reads    int
}

// IsClosed says whether Close was called.
//
//go:norace
func (c *UDPConn) IsClosed() bool { return c.closed }

// Queued is the number of datagrams not yet read.
//
//go:norace
func (c *UDPConn) Queued() int { return len(c.q) }

// Inject queues a datagram at this socket.
//
//go:norace
func (c *UDPConn) Inject(from net.UDPAddr, data []byte) {
	d := &Datagram{From: from, Data: clone(data)}
	d.From.IP = clone(from.IP)
	c.q = append(c.q, d)
	vrt.Touch(&c.h, 0x71)
}

func opErr(op string, c *UDPConn, err error) error {
	return &net.OpError{Op: op, Net: "udp", Source: &net.UDPAddr{IP: c.Local.IP, Port: c.Local.Port}, Err: err}
}

// ---- binding ----

func bind(a *net.UDPAddr) (*UDPConn, error) {
	w := W()
	if w == nil {
		return nil, errors.New("vnet: no network")
	}
	vrt.Yield()
	return bind2(w, a)
}

//go:norace
func bind2(w *World, a *net.UDPAddr) (*UDPConn, error) {
	vrt.Touch(&w.h, 0x72)
	w.Binds++
	fail := func(err error) error {
		return &net.OpError{Op: "listen", Net: "udp4", Addr: a, Err: err}
	}
	if w.BindErr != nil {
		if err := w.BindErr(a); err != nil {
			return nil, fail(err)
		}
	}
	wild := func(ip net.IP) bool { return len(ip) == 0 || ip.IsUnspecified() }
	for _, s := range w.Socks {
		if s.closed || s.Local.Port != a.Port || !s.Host.Equal(w.HostIP) {
			continue
		}
		if wild(s.Local.IP) || wild(a.IP) || s.Local.IP.Equal(a.IP) {
			return nil, fail(os.NewSyscallError("bind", syscall.EADDRINUSE))
		}
	}
	c := &UDPConn{w: w, Host: w.HostIP}
	c.Local = net.UDPAddr{Port: a.Port}
	if !wild(a.IP) {
		ip := a.IP
		if v4 := ip.To4(); v4 != nil {
			ip = v4
		}
		c.Local.IP = clone(ip)
	} else {
		c.Local.IP = net.IPv4zero
	}
	w.Socks = append(w.Socks, c)
	return c, nil
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	switch network {
	case "udp", "udp4":
	default:
		return nil, net.UnknownNetworkError(network)
	}
	a, err := net.ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	c, err := bind(a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func ListenUDP(network string, a *net.UDPAddr) (*UDPConn, error) {
	switch network {
	case "udp", "udp4":
	default:
		return nil, net.UnknownNetworkError(network)
	}
	if a == nil {
		a = &net.UDPAddr{}
	}
	return bind(a)
}

// ListenConfig is net.ListenConfig for packet sockets.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) ListenPacket(_ context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return nil, errors.New("vnet: only packet sockets")
}

func DialUDP(network string, l, r *net.UDPAddr) (*UDPConn, error) {
	if l == nil {
		l = &net.UDPAddr{Port: 40000 + len(W().Socks)}
	}
	c, err := bind(l)
	if err != nil {
		return nil, err
	}
	c.remote = r
	return c, nil
}

// ---- reading ----

type readWaiter struct{ c *UDPConn }

//go:norace
func (r *readWaiter) Ready(*vrt.G) bool {
	c := r.c
	if len(c.q) > 0 || c.closed {
		return true
	}
	return !c.rdl.IsZero() && !vrt.Clock().Before(c.rdl)
}

//go:norace
func (r *readWaiter) What() string {
	return fmt.Sprintf("read socket (%d queued, closed %v)", len(r.c.q), r.c.closed)
}

//go:norace
func (c *UDPConn) take() (*Datagram, error) {
	vrt.Point(&readWaiter{c})
	vrt.Touch(&c.h, 0x73)
	if c.closed {
		return nil, net.ErrClosed
	}
	if !c.rdl.IsZero() && !vrt.Clock().Before(c.rdl) {
		return nil, os.ErrDeadlineExceeded
	}
	d := c.q[0]
	c.q = c.q[1:]
	c.Reads++
	if d.Err != nil {
		return nil, d.Err
	}
	return d, nil
}

// read is instrumented in a race build: it writes the caller's buffer.
func (c *UDPConn) read(b []byte) (int, *Datagram, error) {
	if c == nil {
		return 0, nil, syscall.EINVAL
	}
	d, err := c.take()
	if err != nil {
		return 0, nil, opErr("read", c, err)
	}
	return copy(b, d.Data), d, nil
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	n, d, err := c.read(b)
	if err != nil {
		return n, nil, err
	}
	return n, addrOf(d), nil
}

//go:norace
func addrOf(d *Datagram) *net.UDPAddr {
	return &net.UDPAddr{IP: clone(d.From.IP), Port: d.From.Port}
}

func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.read(b)
	return n, err
}

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDP(b)
	if err != nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), nil
}

func (c *UDPConn) ReadMsgUDP(b, oob []byte) (int, int, int, *net.UDPAddr, error) {
	n, a, err := c.ReadFromUDP(b)
	return n, 0, 0, a, err
}

// ---- writing ----

func (c *UDPConn) write(b []byte, to *net.UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if to == nil {
		return 0, opErr("write", c, errors.New("missing address"))
	}
	// instrumented in a race build: reads the caller's buffer
	var x byte
	for i := range b {
		x |= b[i]
	}
	ip := to.IP
	for i := range ip {
		x |= ip[i]
	}
	use(x)
	return c.write2(b, to)
}

//go:noinline
//go:norace
func use(x byte) {
	if x == 1 {
		sink = x
	}
}

//go:norace
func (c *UDPConn) write2(b []byte, to *net.UDPAddr) (int, error) {
	vrt.Yield()
	w := c.w
	vrt.Touch(&w.h, 0x74)
	vrt.Touch(&c.h, 0x75)
	if c.closed {
		return 0, opErr("write", c, net.ErrClosed)
	}
	ip := to.IP
	if v4 := ip.To4(); v4 != nil {
		ip = v4
	}
	d := &Datagram{At: vrt.Elapsed(), Step: w.Events, To: net.UDPAddr{IP: clone(ip), Port: to.Port}, Data: clone(b), Sock: c}
	d.From = c.Local
	if len(d.From.IP) == 0 || d.From.IP.IsUnspecified() {
		d.From.IP = c.Host
	}
	w.Events++
	if !c.wdl.IsZero() && !vrt.Clock().Before(c.wdl) {
		return 0, opErr("write", c, os.ErrDeadlineExceeded)
	}
	if len(b) > 65507 {
		return 0, opErr("write", c, os.NewSyscallError("sendto", syscall.EMSGSIZE))
	}
	if w.WriteErr != nil {
		if err := w.WriteErr(d); err != nil {
			d.Err = err
			w.Failed = append(w.Failed, d)
			vrt.LogEvent(hash(d) + 1)
			return 0, opErr("write", c, err)
		}
	}
	w.Sent = append(w.Sent, d)
	vrt.LogEvent(hash(d))
	if w.Route {
		w.deliver(d)
	}
	if w.OnSend != nil {
		w.OnSend(d)
	}
	return len(b), nil
}

//go:norace
func (w *World) deliver(d *Datagram) {
	bc := w.Broadcast != nil && w.Broadcast(d.To.IP)
	for _, s := range w.Socks {
		if s.closed || s.Local.Port != d.To.Port {
			continue
		}
		if bc || s.Local.IP.Equal(d.To.IP) || (s.Local.IP.IsUnspecified() && s.Host.Equal(d.To.IP)) {
			s.Inject(d.From, d.Data)
		}
	}
}

//go:norace
func hash(d *Datagram) uint64 {
	var h uint64 = 14695981039346656037
	for _, s := range [][]byte{d.To.IP, d.From.IP, d.Data} {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
		h *= 31
	}
	h ^= uint64(d.To.Port)
	h *= 1099511628211
	h ^= uint64(d.At)
	h *= 1099511628211
	return h
}

func (c *UDPConn) WriteToUDP(b []byte, to *net.UDPAddr) (int, error) { return c.write(b, to) }

func (c *UDPConn) WriteTo(b []byte, to net.Addr) (int, error) {
	a, ok := to.(*net.UDPAddr)
	if !ok {
		return 0, opErr("write", c, syscall.EINVAL)
	}
	return c.write(b, a)
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, to netip.AddrPort) (int, error) {
	return c.write(b, net.UDPAddrFromAddrPort(to))
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if c != nil && c.remote == nil {
		return 0, opErr("write", c, syscall.EDESTADDRREQ)
	}
	return c.write(b, c.remote)
}

func (c *UDPConn) WriteMsgUDP(b, oob []byte, to *net.UDPAddr) (int, int, error) {
	n, err := c.write(b, to)
	return n, 0, err
}

//go:norace
func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	if vrt.Dead() {
		return nil
	}
	vrt.Yield()
	vrt.Touch(&c.w.h, 0x76)
	vrt.Touch(&c.h, 0x77)
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.closed = true
	c.w.Events++
	vrt.LogEvent(0xc105e)
	return nil
}

func (c *UDPConn) LocalAddr() net.Addr {
	a := c.Local
	return &a
}

func (c *UDPConn) RemoteAddr() net.Addr {
	if c.remote == nil {
		return nil
	}
	return c.remote
}

func (c *UDPConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

//go:norace
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	if vrt.Dead() {
		return nil
	}
	vrt.Yield()
	vrt.Touch(&c.h, 0x78)
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.rdl = t
	if !t.IsZero() {
		if d := t.Sub(vrt.Clock()); d > 0 {
			vrt.Alarm(d)
		}
	}
	return nil
}

//go:norace
func (c *UDPConn) SetWriteDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	if vrt.Dead() {
		return nil
	}
	vrt.Yield()
	vrt.Touch(&c.h, 0x79)
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.wdl = t
	return nil
}

func (c *UDPConn) SetReadBuffer(int) error               { return nil }
func (c *UDPConn) SetWriteBuffer(int) error              { return nil }
func (c *UDPConn) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EINVAL }
func (c *UDPConn) File() (*os.File, error)               { return nil, syscall.EINVAL }

var sink byte

var _ = unsafe.Pointer(nil)
