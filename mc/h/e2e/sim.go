package e2eh

// A network in virtual time, whose every datagram may be lost, doubled or held
// up, with the real library at both of its ends.

import (
	"crypto/rand"
	"encoding/binary"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
	"verif/mc/shim/vrand"
	"verif/mc/shim/vsel"
)

func init() { log.SetOutput(io.Discard) }

// entropy is crypto/rand made repeatable; every read differs from all others.
type entropy struct{ n uint64 }

func (e *entropy) Read(p []byte) (int, error) {
	e.n++
	var b [8]byte
	for i := range p {
		if i%8 == 0 {
			binary.LittleEndian.PutUint64(b[:], (e.n+uint64(i)<<20)*0x9e3779b97f4a7c15)
		}
		p[i] = b[i%8]
	}
	return len(p), nil
}

func setFlag(name, value string) {
	if f := flag.Lookup(name); f != nil && f.Value.String() != value {
		f.Value.Set(value)
	}
}

const (
	latency  = 7 * time.Millisecond
	holdup   = 613 * time.Millisecond // one and a half intervals
	interval = 400 * time.Millisecond
	uasT     = 431 * time.Millisecond
)

type event struct {
	at   time.Duration
	what string
	do   func()
}

type dgram struct {
	from *vnet.UDPConn
	src  *net.UDPAddr
	dst  *net.UDPAddr
	data []byte
	at   time.Duration
	n    int
}

// sim is one world: an application placing a call, and everyone else.
type sim struct {
	x       *mc.X
	w       *vnet.World
	start   time.Time
	mu      sync.Mutex
	sent    []dgram
	wake    chan bool
	evs     []event
	nodes   []*node
	budget  int
	spent   map[int]int // faults by transaction
	shift   int         // what the translator adds to ports
	first   int         // the first datagram not simply delivered
	max     int
	n       int
	log     []string
	nat     bool            // the caller sits behind a translator
	refuse  map[string]bool // hosts that are up but have nobody listening
	alias   func(d *dgram)  // rewrites the source of a datagram
	cancels int             // CANCELs that met their INVITE
	ears    []*ear
	media   bool                // the callee listens where it says
	late    time.Duration       // how long datagrams are held up
	lose    func(d *dgram) bool // instead of choices
	talking *said
	fates   string
}

// node is a host run by the harness on the library's transport.
type node struct {
	s    *sim
	name string
	ip   string
	port uint16
	tp   *dialog.Transport
	on   func(m *sip.Msg)
}

func (s *sim) now() time.Duration { return time.Since(s.start) }

func (s *sim) say(f string, a ...any) {
	s.log = append(s.log, fmt.Sprintf("%6d %s", s.now()/time.Millisecond, fmt.Sprintf(f, a...)))
}

func (s *sim) after(d time.Duration, what string, do func()) {
	s.evs = append(s.evs, event{s.now() + d, what, do})
}

// world makes an empty network and runs body in it.
func world(x *mc.X, budget, max int, loose bool, body func(s *sim)) {
	setFlag("resendInterval", strconv.Itoa(int(interval/time.Millisecond)))
	setFlag("maxResends", strconv.Itoa(max))
	setFlag("looseSignalling", strconv.FormatBool(loose))
	setFlag("timestampTagging", strconv.FormatBool(cur != nil && cur.tags))
	setFlag("trace", strconv.FormatBool(cur != nil && cur.trace))
	vsel.Rank = nil
	w := vnet.NewWorld()
	w.Quiet = true
	vnet.Cur = w
	n := uint64(1)
	vrand.Use(func() uint64 { n += 0x9e3779b97f4a7c15; return n })
	rand.Reader = &entropy{}
	s := &sim{x: x, w: w, budget: budget, max: max, late: holdup, refuse: map[string]bool{}, spent: map[int]int{}, shift: 20000}
	w.LocalIP = func(*net.UDPAddr) net.IP { return net.IPv4(10, 0, 0, 1).To4() }
	w.SRV = func(service, proto, name string) ([]*net.SRV, error) {
		if service == "sip" && proto == "udp" && name == "srv.example" {
			return []*net.SRV{{Target: "10.0.0.4", Port: 5064}, {Target: "10.0.0.2", Port: 5060}}, nil
		}
		return nil, &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
	}
	w.Host = func(name string) ([]net.IP, error) {
		if name == "host.example" {
			return []net.IP{net.IPv4(10, 0, 0, 2)}, nil
		}
		return nil, &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
	}
	w.Deliver = func(c *vnet.UDPConn, p vnet.Packet) {
		s.mu.Lock()
		s.sent = append(s.sent, dgram{from: c, src: c.LocalAddr().(*net.UDPAddr), dst: p.Addr, data: p.Data, at: s.now()})
		s.mu.Unlock()
		select {
		case s.wake <- true:
		default:
		}
	}
	var leaked bool
	leaked = x.Bubble(func() {
		s.start = time.Now()
		s.wake = make(chan bool, 1)
		x.OnCut(func() {
			for i := 0; i < 3; i++ {
				for _, k := range w.Open() {
					if k.RemoteAddr() != nil {
						k.Inject(vnet.Packet{Err: k.Broken("read")})
					}
				}
				synctest.Wait()
			}
			for _, k := range s.nodes {
				k.close()
			}
			for _, e := range s.ears {
				if !e.dead {
					e.dead = true
					e.rs.Close()
				}
			}
		})
		body(s)
		for _, k := range s.nodes {
			k.close()
		}
	})
	if leaked {
		s.fail("tasks left", "")
	}
	if o := w.Open(); len(o) > 0 {
		s.fail("sockets left", "%d still open", len(o))
	}
}

func (s *sim) text() string { return strings.Join(s.log, "\n") }

func (s *sim) fail(key, f string, a ...any) {
	if cur != nil && cur.base {
		s.x.Skip() // another property's business
	}
	s.x.Violate(key, "%s\n%s", fmt.Sprintf(f, a...), s.text())
}

// node puts a host on the network.
func (s *sim) node(name, ip string, port uint16) *node {
	tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", User: name, Host: ip, Port: port}})
	if err != nil {
		s.fail("no transport", "%s: %v", name, err)
	}
	k := &node{s: s, name: name, ip: ip, port: port, tp: tp}
	s.nodes = append(s.nodes, k)
	return k
}

func (k *node) send(m *sip.Msg) {
	if err := k.tp.Send(m); err != nil {
		k.s.fail("cannot send", "%s: %v\n%s", k.name, err, m)
	}
}

func (k *node) close() {
	k.tp.Sock.Close()
	for i := 0; i < 100; i++ {
		select {
		case m := <-k.tp.C:
			if m == nil {
				return
			}
		case <-k.tp.E:
		}
	}
}

// run lets the network go on until the moment t, or until done.
func (s *sim) run(t time.Duration, done func() bool) {
	for {
		synctest.Wait()
		s.collect()
		if s.poll() {
			continue
		}
		if done != nil && done() {
			return
		}
		i := s.earliest()
		due := t
		if i >= 0 && s.evs[i].at < t {
			due = s.evs[i].at
		}
		if d := due - s.now(); d > 0 {
			tm := time.NewTimer(d)
			select {
			case <-s.wake:
			case <-tm.C:
			}
			tm.Stop()
			continue
		}
		if i < 0 || s.evs[i].at > s.now() {
			return
		}
		e := s.evs[i]
		s.evs = append(s.evs[:i:i], s.evs[i+1:]...)
		s.x.Step(1)
		e.do()
	}
}

func (s *sim) earliest() int {
	b := -1
	for i := range s.evs {
		if b < 0 || s.evs[i].at < s.evs[b].at {
			b = i
		}
	}
	return b
}

// poll hands to the hosts what arrived for them.
func (s *sim) poll() (any bool) {
	for _, k := range s.nodes {
		select {
		case m, ok := <-k.tp.C:
			if ok {
				cur.heard(k, m)
				k.on(m)
				any = true
			}
		default:
		}
	}
	for _, e := range s.ears {
		for e.poll() {
			any = true
			synctest.Wait()
		}
	}
	return
}

// cseqOf tells the transactions of a call apart: there are no more faults in
// one than retransmission makes up for.
func cseqOf(b []byte) int {
	m, err := sip.ParseMsg(append([]byte(nil), b...))
	if err != nil || m == nil {
		return -1
	}
	return m.CSeq
}

func brief(b []byte) string {
	if len(b) > 11 && b[0] == 0x80 {
		return fmt.Sprintf("RTP %d #%d @%d", b[1]&127, int(b[2])<<8|int(b[3]), uint32(b[4])<<24|uint32(b[5])<<16|uint32(b[6])<<8|uint32(b[7]))
	}
	s := string(b)
	m, err := sip.ParseMsg(append([]byte(nil), b...))
	if err != nil || m == nil {
		return fmt.Sprintf("unreadable %q", s)
	}
	if m.IsResponse() {
		return fmt.Sprintf("%d (%d %s)", m.Status, m.CSeq, m.CSeqMethod)
	}
	return fmt.Sprintf("%s (%d)", m.Method, m.CSeq)
}

// collect decides the fate of everything sent.
func (s *sim) collect() {
	s.mu.Lock()
	ds := s.sent
	s.sent = nil
	s.mu.Unlock()
	for i := range ds {
		d := &ds[i]
		s.n++
		d.n = s.n
		if s.alias != nil {
			s.alias(d)
		}
		fate := 0
		rtp := s.ears != nil && len(d.data) > 1 && d.data[0] == 0x80
		switch {
		case s.lose != nil:
			if s.lose(d) {
				fate = 1
			}
		case rtp && s.media:
			s.n-- // signalling only
		case s.n < s.first:
		case s.n == s.first && cur != nil:
			fate = cur.fate
		case s.n == s.first:
			fate = 1 + s.x.Choose(3, "fate")
			s.budget--
		case s.budget > 0 && s.spent[cseqOf(d.data)] < s.max:
			if fate = s.x.Choose(4, "fate"); fate > 0 {
				s.budget--
			}
		}
		if fate > 0 && s.lose == nil && !rtp {
			s.spent[cseqOf(d.data)]++
		}
		s.say("%s -> %s %s%s", d.src, d.dst, brief(d.data), [4]string{"", " LOST", " TWICE", " LATE"}[fate])
		s.fates += strconv.Itoa(fate)
		cur.sent(s, d)
		if rtp && s.talking != nil {
			s.talking.total++
			s.talking.fates = append(s.talking.fates, fate)
			if fate == 1 {
				s.talking.lost++
			}
		}
		put := func(l time.Duration) {
			s.evs = append(s.evs, event{d.at + l, "datagram", func() { s.arrive(d) }})
		}
		switch fate {
		case 0:
			put(latency)
		case 2:
			put(latency)
			put(latency + s.late)
		case 3:
			put(latency + s.late)
		}
	}
}

// The translator in front of the caller: port p inside is p+20000 outside.
var outside = net.IPv4(203, 0, 113, 9).To4()

// arrive delivers a datagram.
func (s *sim) arrive(d *dgram) {
	src, dst := *d.src, *d.dst
	if s.nat {
		if src.IP.Equal(net.IPv4(10, 0, 0, 1)) {
			src.IP, src.Port = outside, src.Port+s.shift
		} else if dst.IP.Equal(outside) {
			dst.IP, dst.Port = net.IPv4(10, 0, 0, 1), dst.Port-s.shift
		} else if dst.IP.Equal(net.IPv4(10, 0, 0, 1)) {
			return // nobody outside can address it
		}
	}
	var to *vnet.UDPConn
	for _, c := range s.w.Open() {
		l := c.LocalAddr().(*net.UDPAddr)
		if l.Port != dst.Port || !l.IP.Equal(dst.IP) && !l.IP.IsUnspecified() {
			continue
		}
		if r, ok := c.RemoteAddr().(*net.UDPAddr); ok && r != nil {
			if !r.IP.Equal(src.IP) || r.Port != src.Port {
				continue
			}
			to = c // a connected socket goes first
			break
		}
		to = c
	}
	if to != nil {
		for _, e := range s.ears {
			if !e.dead && e.rs.Sock == to {
				e.wire = append(e.wire, d.data)
			}
		}
		cur.arrived(s, to, d.data, &src)
		to.Inject(vnet.Packet{Data: append([]byte(nil), d.data...), Addr: &src})
		return
	}
	if s.refuse[dst.IP.String()] && d.from.RemoteAddr() != nil && !d.from.Closed() {
		d.from.Inject(vnet.Packet{Err: d.from.Refused("read")})
	}
}

// ---- the caller ----

type caller struct {
	s      *sim
	dl     *dialog.Dialog
	mu     sync.Mutex
	states []int
	errs   []error
	peers  []string
	closed bool
	asked  bool // to hang up
	askAt  time.Duration
	endAt  time.Duration
	onAns  func()
}

func (s *sim) call(inv *sip.Msg) *caller {
	dl, err := dialog.NewDialog(inv)
	if err != nil || dl == nil {
		s.fail("no call", "%v", err)
	}
	c := &caller{s: s, dl: dl}
	go func() {
		es, ss, ps := dl.OnErr, dl.OnState, dl.OnPeer
		for es != nil || ss != nil || ps != nil {
			select {
			case v, ok := <-es:
				if ok {
					c.note(func() { c.errs = append(c.errs, v) })
				} else {
					es = nil
				}
			case v, ok := <-ss:
				if ok {
					c.note(func() { c.states = append(c.states, v) })
				} else {
					ss = nil
				}
			case v, ok := <-ps:
				if ok {
					c.note(func() { c.peers = append(c.peers, v.String()) })
				} else {
					ps = nil
				}
			}
		}
		c.note(func() { c.closed, c.endAt = true, s.now() })
		select {
		case s.wake <- true:
		default:
		}
	}()
	return c
}

func (c *caller) note(f func()) {
	c.mu.Lock()
	f()
	cur.told(c)
	c.mu.Unlock()
}

func (c *caller) hangup() {
	if c.closed {
		return
	}
	c.asked, c.askAt = true, c.s.now()
	c.s.say("caller hangs up")
	c.dl.Hangup <- true
}

func (c *caller) said(state int) (n int) {
	for _, v := range c.states {
		if v == state {
			n++
		}
	}
	return
}

func errText(err error) string {
	var re *sip.ResponseError
	if errors.As(err, &re) && re.Msg != nil {
		return "response " + strconv.Itoa(re.Msg.Status)
	}
	if strings.Contains(err.Error(), "Failed to contact") {
		return "contact"
	}
	return err.Error()
}
