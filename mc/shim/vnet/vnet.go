// Package vnet stands in for package net in the copy of the code under test:
// UDP sockets, dialling, binding and name lookups happen in an in-memory World
// that the explorer controls. Everything else is forwarded to package net.
package vnet

import (
	"context"
	"fmt"
	"net"
	"net/netip"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// Packet is one datagram that left, or one item waiting to be read.
type Packet struct {
	Data []byte
	Addr *net.UDPAddr // peer: destination (sent) or source (received)
	Err  error        // received: a read error instead of data
}

// Op is one thing the code under test did to the world.
type Op struct {
	Kind string // dial, listen, srv, host, resolve, write, close
	Arg  string
	Conn *UDPConn
	Pkt  Packet
	Err  error
	At   time.Time
}

// World is the network seen by one execution.
type World struct {
	mu    sync.Mutex
	Ops   []Op
	Conns []*UDPConn
	port  int
	// Hooks; nil means success.
	DialErr   func(addr string) error
	ListenErr func(addr string) error
	WriteErr  func(c *UDPConn, p Packet) error
	SRV       func(service, proto, name string) ([]*net.SRV, error)
	Host      func(name string) ([]net.IP, error)
	LocalIP   func(dest *net.UDPAddr) net.IP
	// Yield is called at every operation (a write before the datagram is
	// copied, a read after), where another task may get its turn.
	Yield func(kind, arg string, c *UDPConn)
	// Deliver is called with what was written.
	Deliver func(c *UDPConn, p Packet)
	// Quiet keeps no log, and so doesn't order what different tasks do.
	Quiet bool
}

func (w *World) yield(kind, arg string, c *UDPConn) {
	if f := w.Yield; f != nil {
		f(kind, arg, c)
	}
}

// Cur is the world of the current execution (one at a time per process).
var Cur = NewWorld()

// NewWorld returns an empty world.
func NewWorld() *World { return &World{port: 40000} }

func (w *World) log(o Op) {
	if w.Quiet {
		return
	}
	o.At = time.Now()
	w.mu.Lock()
	w.Ops = append(w.Ops, o)
	w.mu.Unlock()
}

// Note lets a harness put its own marks in the log.
func (w *World) Note(kind, arg string) { w.log(Op{Kind: kind, Arg: arg}) }

// Snapshot returns a copy of the log.
func (w *World) Snapshot() []Op {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Op(nil), w.Ops...)
}

// Len returns the length of the log.
func (w *World) Len() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.Ops)
}

// Open returns the sockets not yet closed.
func (w *World) Open() (cs []*UDPConn) {
	w.mu.Lock()
	all := append([]*UDPConn(nil), w.Conns...)
	w.mu.Unlock()
	for _, c := range all {
		if !c.Closed() {
			cs = append(cs, c)
		}
	}
	return
}

// All returns all sockets ever made.
func (w *World) All() []*UDPConn {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*UDPConn(nil), w.Conns...)
}

func (w *World) newConn(l, r *net.UDPAddr) *UDPConn {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l.Port == 0 {
		w.port++
		l.Port = w.port
	}
	c := &UDPConn{w: w, ID: len(w.Conns), laddr: l, raddr: r, wake: make(chan struct{}, 1), done: make(chan struct{})}
	w.Conns = append(w.Conns, c)
	return c
}

// UDPConn is an in-memory UDP socket.
type UDPConn struct {
	w      *World
	ID     int
	mu     sync.Mutex
	q      []Packet
	laddr  *net.UDPAddr
	raddr  *net.UDPAddr
	wake   chan struct{}
	done   chan struct{}
	closed bool
	rdl    time.Time
}

// Inject queues something to be read.
func (c *UDPConn) Inject(p Packet) {
	c.mu.Lock()
	c.q = append(c.q, p)
	c.mu.Unlock()
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

// Queued is the number of items waiting to be read.
func (c *UDPConn) Queued() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.q)
}

// Closed tells whether the socket was closed.
func (c *UDPConn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *UDPConn) opErr(op string, a net.Addr, err error) error {
	return &net.OpError{Op: op, Net: "udp", Source: c.laddr, Addr: a, Err: err}
}

// Refused is the error the kernel reports after an ICMP port unreachable.
func (c *UDPConn) Refused(op string) error {
	return c.opErr(op, c.rAddr(), os.NewSyscallError(op, syscall.ECONNREFUSED))
}

// Broken is some other error.
func (c *UDPConn) Broken(op string) error {
	return c.opErr(op, c.rAddr(), os.NewSyscallError(op, syscall.ENETDOWN))
}

func (c *UDPConn) rAddr() net.Addr {
	if c.raddr == nil {
		return nil
	}
	return c.raddr
}

func (c *UDPConn) recv(b []byte) (int, *net.UDPAddr, error) {
	if c == nil {
		return 0, nil, syscall.EINVAL
	}
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, nil, c.opErr("read", c.rAddr(), net.ErrClosed)
		}
		if len(c.q) > 0 {
			p := c.q[0]
			c.q = c.q[1:]
			c.mu.Unlock()
			if p.Err != nil {
				return 0, nil, p.Err
			}
			n := copy(b, p.Data)
			a := *p.Addr
			c.w.yield("read", "", c)
			return n, &a, nil
		}
		dl := c.rdl
		c.mu.Unlock()
		var tc <-chan time.Time
		if !dl.IsZero() {
			d := time.Until(dl)
			if d <= 0 {
				return 0, nil, c.opErr("read", c.rAddr(), os.ErrDeadlineExceeded)
			}
			tc = time.After(d)
		}
		select {
		case <-c.wake:
		case <-c.done:
		case <-tc:
		}
	}
}

func (c *UDPConn) send(b []byte, to *net.UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if c.Closed() {
		return 0, c.opErr("write", to, net.ErrClosed)
	}
	c.w.yield("write", to.String(), c)
	p := Packet{Data: append([]byte(nil), b...), Addr: &net.UDPAddr{IP: append(net.IP(nil), to.IP...), Port: to.Port, Zone: to.Zone}}
	if to.Port == 0 {
		err := c.opErr("write", to, os.NewSyscallError("sendto", syscall.EINVAL))
		c.w.log(Op{Kind: "write", Conn: c, Pkt: p, Err: err})
		return 0, err
	}
	if f := c.w.WriteErr; f != nil {
		if err := f(c, p); err != nil {
			c.w.log(Op{Kind: "write", Conn: c, Pkt: p, Err: err})
			return 0, err
		}
	}
	c.w.log(Op{Kind: "write", Conn: c, Pkt: p})
	if f := c.w.Deliver; f != nil {
		f(c, p)
	}
	return len(b), nil
}

func (c *UDPConn) Read(b []byte) (int, error) { n, _, err := c.recv(b); return n, err }

func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.recv(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) { return c.recv(b) }

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.recv(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}

func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, addr, err = c.recv(b)
	return
}

func (c *UDPConn) ReadMsgUDPAddrPort(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {
	n, addr, err = c.ReadFromUDPAddrPort(b)
	return
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if c.raddr == nil {
		return 0, c.opErr("write", nil, syscall.EDESTADDRREQ)
	}
	return c.send(b, c.raddr)
}

func (c *UDPConn) WriteTo(b []byte, a net.Addr) (int, error) {
	u, ok := a.(*net.UDPAddr)
	if !ok || u == nil {
		return 0, c.opErr("write", a, syscall.EINVAL)
	}
	return c.WriteToUDP(b, u)
}

func (c *UDPConn) WriteToUDP(b []byte, a *net.UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if c.raddr != nil {
		return 0, c.opErr("write", a, net.ErrWriteToConnected)
	}
	if a == nil {
		return 0, c.opErr("write", nil, fmt.Errorf("missing address"))
	}
	return c.send(b, a)
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, net.UDPAddrFromAddrPort(a))
}

func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *net.UDPAddr) (n, oobn int, err error) {
	if a == nil {
		n, err = c.Write(b)
	} else {
		n, err = c.WriteToUDP(b, a)
	}
	return
}

func (c *UDPConn) WriteMsgUDPAddrPort(b, oob []byte, a netip.AddrPort) (n, oobn int, err error) {
	return c.WriteMsgUDP(b, oob, net.UDPAddrFromAddrPort(a))
}

func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("close", c.rAddr(), net.ErrClosed)
	}
	c.closed = true
	close(c.done)
	c.w.log(Op{Kind: "close", Conn: c})
	return nil
}

// LocalAddr and RemoteAddr crash on a nil socket, as the real ones do.
func (c *UDPConn) LocalAddr() net.Addr { a := *c.laddr; return &a }

func (c *UDPConn) RemoteAddr() net.Addr {
	if c.raddr == nil {
		return nil
	}
	a := *c.raddr
	return &a
}

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	select {
	case c.wake <- struct{}{}:
	default:
	}
	return nil
}
func (c *UDPConn) SetDeadline(t time.Time) error         { return c.SetReadDeadline(t) }
func (c *UDPConn) SetWriteDeadline(t time.Time) error    { return nil }
func (c *UDPConn) SetReadBuffer(int) error               { return nil }
func (c *UDPConn) SetWriteBuffer(int) error              { return nil }
func (c *UDPConn) File() (*os.File, error)               { return nil, syscall.EINVAL }
func (c *UDPConn) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EINVAL }

func udpOnly(network string) bool { return network == "udp" || network == "udp4" || network == "udp6" }

func localFor(w *World, r *net.UDPAddr) net.IP {
	if w.LocalIP != nil {
		return w.LocalIP(r)
	}
	if r != nil && r.IP.To4() == nil && r.IP != nil {
		return net.ParseIP("2001:db8::99")
	}
	return net.IPv4(10, 0, 0, 99).To4()
}

func dial(w *World, network, addr string) (net.Conn, error) {
	if !udpOnly(network) {
		return nil, &net.OpError{Op: "dial", Net: network, Err: fmt.Errorf("vnet: network %s not available", network)}
	}
	w.yield("dial", addr, nil)
	r, err := resolveUDP(w, addr)
	if err == nil && w.DialErr != nil {
		err = w.DialErr(addr)
	}
	if err != nil {
		err = &net.OpError{Op: "dial", Net: network, Err: err}
		w.log(Op{Kind: "dial", Arg: addr, Err: err})
		return nil, err
	}
	c := w.newConn(&net.UDPAddr{IP: localFor(w, r)}, r)
	w.log(Op{Kind: "dial", Arg: addr, Conn: c})
	return c, nil
}

// Dial makes a connected socket.
func Dial(network, addr string) (net.Conn, error) { return dial(Cur, network, addr) }

// DialTimeout is Dial.
func DialTimeout(network, addr string, _ time.Duration) (net.Conn, error) { return Dial(network, addr) }

// DialUDP makes a connected socket.
func DialUDP(network string, l, r *net.UDPAddr) (*UDPConn, error) {
	c, err := Dial(network, r.String())
	if err != nil {
		return nil, err
	}
	return c.(*UDPConn), nil
}

func listen(w *World, network, addr string) (*UDPConn, error) {
	if !udpOnly(network) {
		return nil, &net.OpError{Op: "listen", Net: network, Err: fmt.Errorf("vnet: network %s not available", network)}
	}
	w.yield("listen", addr, nil)
	a, err := resolveUDP(w, addr)
	if err == nil && w.ListenErr != nil {
		err = w.ListenErr(addr)
	}
	if err != nil {
		err = &net.OpError{Op: "listen", Net: network, Addr: a, Err: err}
		w.log(Op{Kind: "listen", Arg: addr, Err: err})
		return nil, err
	}
	ip := a.IP
	if ip == nil {
		ip = net.IPv6zero
	}
	c := w.newConn(&net.UDPAddr{IP: ip, Port: a.Port}, nil)
	w.log(Op{Kind: "listen", Arg: addr, Conn: c})
	return c, nil
}

// InUse is the cause of a failed bind to a port that is taken.
func InUse() error { return os.NewSyscallError("bind", syscall.EADDRINUSE) }

// ListenPacket binds a socket.
func ListenPacket(network, addr string) (net.PacketConn, error) {
	c, err := listen(Cur, network, addr)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// ListenUDP binds a socket.
func ListenUDP(network string, l *net.UDPAddr) (*UDPConn, error) {
	s := ":0"
	if l != nil {
		s = l.String()
		if l.IP == nil {
			s = ":" + strconv.Itoa(l.Port)
		}
	}
	return listen(Cur, network, s)
}

func lookupHost(w *World, name string) ([]net.IP, error) {
	if ip := net.ParseIP(name); ip != nil {
		return []net.IP{ip}, nil
	}
	w.yield("host", name, nil)
	var ips []net.IP
	err := error(&net.DNSError{Err: "no such host", Name: name, IsNotFound: true})
	if w.Host != nil {
		ips, err = w.Host(name)
	}
	w.log(Op{Kind: "host", Arg: name, Err: err})
	return ips, err
}

func resolveUDP(w *World, addr string) (*net.UDPAddr, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	n, err := net.LookupPort("udp", p)
	if err != nil {
		return nil, err
	}
	if h == "" {
		return &net.UDPAddr{Port: n}, nil
	}
	ips, err := lookupHost(w, h)
	if err != nil {
		return nil, err
	}
	ip := ips[0]
	for _, i := range ips { // as package net: prefer IPv4
		if i.To4() != nil {
			ip = i
			break
		}
	}
	if v4 := ip.To4(); v4 != nil {
		ip = v4
	}
	return &net.UDPAddr{IP: ip, Port: n}, nil
}

// ResolveUDPAddr resolves host:port.
func ResolveUDPAddr(network, addr string) (*net.UDPAddr, error) {
	if !udpOnly(network) && network != "" {
		return nil, net.UnknownNetworkError(network)
	}
	return resolveUDP(Cur, addr)
}

func lookupSRV(w *World, service, proto, name string) (string, []*net.SRV, error) {
	w.yield("srv", name, nil)
	var s []*net.SRV
	err := error(&net.DNSError{Err: "no such host", Name: name, IsNotFound: true})
	if w.SRV != nil {
		s, err = w.SRV(service, proto, name)
	}
	w.log(Op{Kind: "srv", Arg: "_" + service + "._" + proto + "." + name, Err: err})
	return "_" + service + "._" + proto + "." + name + ".", s, err
}

// LookupSRV looks up service records.
func LookupSRV(service, proto, name string) (string, []*net.SRV, error) {
	return lookupSRV(Cur, service, proto, name)
}

// LookupHost resolves a name.
func LookupHost(name string) ([]string, error) {
	ips, err := lookupHost(Cur, name)
	var ss []string
	for _, i := range ips {
		ss = append(ss, i.String())
	}
	return ss, err
}

// LookupIP resolves a name.
func LookupIP(name string) ([]net.IP, error) { return lookupHost(Cur, name) }

// LookupPort resolves a service name.
func LookupPort(network, service string) (int, error) { return net.LookupPort(network, service) }

// Resolver forwards to the world.
type Resolver struct {
	PreferGo, StrictErrors bool
	Dial                   func(ctx context.Context, network, address string) (net.Conn, error)
}

// DefaultResolver is the resolver.
var DefaultResolver = &Resolver{}

func (*Resolver) LookupSRV(_ context.Context, s, p, n string) (string, []*net.SRV, error) {
	return LookupSRV(s, p, n)
}
func (*Resolver) LookupHost(_ context.Context, n string) ([]string, error) { return LookupHost(n) }
func (*Resolver) LookupIPAddr(_ context.Context, n string) (as []net.IPAddr, err error) {
	ips, err := lookupHost(Cur, n)
	for _, i := range ips {
		as = append(as, net.IPAddr{IP: i})
	}
	return
}
func (*Resolver) LookupIP(_ context.Context, _, n string) ([]net.IP, error) {
	return lookupHost(Cur, n)
}

// Dialer forwards to the world.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr net.Addr
	KeepAlive time.Duration
	Resolver  *Resolver
}

func (*Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }
func (*Dialer) DialContext(_ context.Context, network, addr string) (net.Conn, error) {
	return Dial(network, addr)
}

// ListenConfig forwards to the world.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (*ListenConfig) ListenPacket(_ context.Context, network, addr string) (net.PacketConn, error) {
	return ListenPacket(network, addr)
}

// OpErrno is a bind failure with another cause.
func OpErrno(e syscall.Errno) error { return os.NewSyscallError("bind", e) }
