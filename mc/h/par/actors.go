package parh

import (
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"regexp"
	"strings"
	"sync"
	"syscall"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"

	"verif/mc/shim/vnet"
)

func init() { log.SetOutput(io.Discard) }

// mail is one datagram an actor's other side received.
type mail struct {
	conn *vnet.UDPConn
	pkt  vnet.Packet
}

// env is one actor: a user of the library together with its other side. All
// its addresses are 10.k.x.x and its host names end in its own domain.
type env struct {
	k     int
	in    chan mail
	mu    sync.Mutex
	lines map[string][]string
	n     int // operations so far
	stop  int // let others go on at this operation
	wait  bool
	gate  chan bool
	done  bool
	same  bool // all its addresses are those of the other one too
}

// turn is the actor running, others having stopped or ended.
var turn *env

func newEnv(k int) *env {
	return &env{k: k, lines: map[string][]string{}, stop: -1}
}

// open makes the channels, which must be those of the bubble.
func (e *env) open() *env {
	e.in, e.gate = make(chan mail, 1000), make(chan bool)
	return e
}

// common is the number in the addresses of what two actors both talk to.
const common = 5

func (e *env) net() int {
	if e.same {
		return common
	}
	return e.k
}

func (e *env) ip(x, y int) string { return fmt.Sprintf("10.%d.%d.%d", e.net(), x, y) }
func (e *env) host() string       { return fmt.Sprintf("h.d%d.example", e.net()) }

// owner tells whose operation it is.
func owner(arg string, c *vnet.UDPConn) int {
	of := func(s string) int {
		for _, k := range []int{1, 2, common} {
			if strings.HasPrefix(s, fmt.Sprintf("10.%d.", k)) || strings.Contains(s, fmt.Sprintf(".d%d.example", k)) {
				return k
			}
		}
		return 0
	}
	if k := of(arg); k != 0 {
		return k
	}
	if c != nil {
		return of(c.LocalAddr().String())
	}
	return 0
}

func (e *env) say(ch, f string, a ...any) {
	e.mu.Lock()
	e.lines[ch] = append(e.lines[ch], fmt.Sprintf(f, a...))
	e.mu.Unlock()
}

// next takes the next datagram sent.
func (e *env) next() mail {
	m := <-e.in
	e.say("sent", "to %s\n%s", m.pkt.Addr, printable(m.pkt.Data))
	return m
}

func (e *env) nextMsg() (mail, *sip.Msg) {
	m := e.next()
	msg, err := sip.ParseMsg(append([]byte(nil), m.pkt.Data...))
	if err != nil || msg == nil {
		e.say("sent", "unreadable %v", err)
		msg = &sip.Msg{}
	}
	return m, msg
}

func printable(b []byte) string {
	if len(b) > 0 && b[0] >= 0x80 {
		return fmt.Sprintf("% x", b)
	}
	return string(b)
}

// What is drawn at random: a Call-ID, a branch or tag, a CSeq, a local port.
var ident = regexp.MustCompile(`([0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12})|([0-9a-f]{12})|(CSeq: [0-9]+)|(\b4[0-9]{4}\b)`)

// trace is all the actor saw, with what is drawn at random replaced by the
// place where it occurs first.
func (e *env) trace() string {
	var b strings.Builder
	for _, ch := range []string{"sent", "state", "err", "peer", "got", "end"} {
		for _, l := range e.lines[ch] {
			fmt.Fprintf(&b, "%s: %s\n", ch, l)
		}
	}
	names := map[string]string{}
	return ident.ReplaceAllStringFunc(b.String(), func(t string) string {
		if names[t] == "" {
			names[t] = fmt.Sprintf("<%d>", len(names))
		}
		return names[t]
	})
}

// deliver hands to the actors what was sent to them.
func deliver(es []*env) func(c *vnet.UDPConn, p vnet.Packet) {
	return func(c *vnet.UDPConn, p vnet.Packet) {
		k := owner(p.Addr.String(), nil)
		if k == 0 {
			k = owner("", c)
		}
		for _, e := range es {
			if e.k == k || k == common && e == turn {
				e.in <- mail{c, p}
			}
		}
	}
}

func netUDP(s string) *net.UDPAddr {
	h, p, _ := net.SplitHostPort(s)
	n := 0
	fmt.Sscan(p, &n)
	return &net.UDPAddr{IP: net.ParseIP(h).To4(), Port: n}
}

// ---- the actors ----

type actor struct {
	name string
	do   func(e *env)
}

var actors = []actor{{"call", callAnswered}, {"cancelled call", callCancelled}, {"call moving on", callFailover}, {"transport", transport}, {"session", session}, {"receiving transport", receiving}, {"generators", generators}}

func (e *env) invite() *sip.Msg {
	return &sip.Msg{
		Method:  "INVITE",
		Request: &sip.URI{Scheme: "sip", User: fmt.Sprintf("bob%d", e.k), Host: e.ip(0, 1), Port: uint16(5000 + e.k), Param: &sip.URIParam{Name: "x", Value: "y z"}},
		From:    &sip.Addr{Display: fmt.Sprintf("A %d", e.k), Uri: &sip.URI{Scheme: "sip", User: "a", Host: e.host()}},
		Payload: &sdp.SDP{Session: fmt.Sprintf("s%d", e.k), Time: "0 0", Origin: sdp.Origin{User: "u", ID: fmt.Sprint(70 + e.k), Version: "1"},
			Audio: &sdp.Media{Proto: "RTP/AVP", Port: uint16(30000 + e.k), Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}}},
		XHeader: &sip.XHeader{Name: "X-Who", Value: []byte(fmt.Sprint(e.k))},
	}
}

// app reads all a call says and passes on that it did.
func (e *env) app(dl *dialog.Dialog) chan bool {
	rep := make(chan bool, 1000)
	go func() {
		es, ss, ps := dl.OnErr, dl.OnState, dl.OnPeer
		for es != nil || ss != nil || ps != nil {
			select {
			case v, ok := <-es:
				if !ok {
					es = nil
					continue
				}
				e.say("err", "%s", errText(v))
			case v, ok := <-ss:
				if !ok {
					ss = nil
					continue
				}
				e.say("state", "%d", v)
			case v, ok := <-ps:
				if !ok {
					ps = nil
					continue
				}
				e.say("peer", "%s", v)
			}
			rep <- true
		}
		e.say("end", "closed")
		close(rep)
	}()
	return rep
}

func errText(err error) string {
	var re *sip.ResponseError
	if errors.As(err, &re) && re.Msg != nil {
		return "response " + re.Msg.String()
	}
	return err.Error()
}

// answer makes the text of a response.
func (e *env) answer(req *sip.Msg, status int, body bool) string {
	r := &sip.Msg{Status: status, Phrase: sip.Phrase(status), Via: req.Via, From: req.From, To: req.To.Copy(), CallID: req.CallID, CSeq: req.CSeq, CSeqMethod: req.CSeqMethod}
	if r.To.Param.Get("tag") == nil {
		r.To.Param = &sip.Param{Name: "tag", Value: fmt.Sprintf("callee%d", e.k)}
	}
	r.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "there", Host: e.ip(0, 7), Port: 5066}}
	if status == 200 && req.Method == "INVITE" {
		r.RecordRoute = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(0, 8), Param: &sip.URIParam{Name: "lr"}}}
	}
	if body {
		r.Payload = &sdp.SDP{Session: "-", Time: "0 0", Addr: e.ip(3, status%200), Origin: sdp.Origin{User: "-", ID: "1", Version: "1", Addr: e.ip(3, 3)},
			Audio: &sdp.Media{Proto: "RTP/AVP", Port: uint16(20000 + status*2 + e.k), Codecs: []sdp.Codec{sdp.ULAWCodec}}}
	}
	return r.String()
}

func (e *env) give(m mail, text string) {
	e.giveTo(m.conn, m.pkt.Addr, text)
}

func (e *env) giveTo(c *vnet.UDPConn, from *net.UDPAddr, text string) {
	c.Inject(vnet.Packet{Data: []byte(text), Addr: from})
}

func callAnswered(e *env) {
	dl, err := dialog.NewDialog(e.invite())
	if err != nil {
		panic(err)
	}
	rep := e.app(dl)
	m, inv := e.nextMsg()
	e.give(m, e.answer(inv, 180, true))
	<-rep
	<-rep
	e.give(m, e.answer(inv, 200, true))
	e.nextMsg() // ACK
	<-rep
	<-rep
	re := &sip.Msg{Method: "INVITE", Request: inv.Contact.Uri, Via: &sip.Via{Host: e.ip(0, 1), Port: uint16(5000 + e.k), Param: &sip.Param{Name: "branch", Value: fmt.Sprintf("z9hG4bK-re%d", e.k)}},
		From: &sip.Addr{Uri: inv.To.Uri, Param: &sip.Param{Name: "tag", Value: fmt.Sprintf("callee%d", e.k)}}, To: inv.From, CallID: inv.CallID, CSeq: 7 + e.k, CSeqMethod: "INVITE",
		Contact: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(0, 9)}}}
	e.give(m, re.String())
	e.nextMsg() // 200
	ack := *re
	ack.Method, ack.CSeqMethod = "ACK", "ACK"
	e.give(m, ack.String())
	opt := *re
	opt.Method, opt.CSeqMethod, opt.CSeq = "OPTIONS", "OPTIONS", 20+e.k
	e.give(m, opt.String())
	e.nextMsg() // 200
	dl.Hangup <- true
	m, bye := e.nextMsg()
	e.give(m, e.answer(bye, 200, false))
	for range rep {
	}
}

func callCancelled(e *env) {
	inv := e.invite()
	inv.Payload = nil
	dl, err := dialog.NewDialog(inv)
	if err != nil {
		panic(err)
	}
	rep := e.app(dl)
	m, inv := e.nextMsg()
	e.give(m, e.answer(inv, 100, false))
	<-rep
	dl.Hangup <- true
	_, cancel := e.nextMsg()
	e.give(m, e.answer(cancel, 200, false))
	e.give(m, e.answer(inv, 487, false))
	e.nextMsg() // ACK
	for range rep {
	}
}

func callFailover(e *env) {
	inv := e.invite()
	inv.Request.Host, inv.Request.Port = e.host(), 0
	dl, err := dialog.NewDialog(inv)
	if err != nil {
		panic(err)
	}
	rep := e.app(dl)
	m, _ := e.nextMsg()
	m.conn.Inject(vnet.Packet{Err: m.conn.Refused("read")})
	m, inv = e.nextMsg()
	e.give(m, e.answer(inv, 503, false))
	e.nextMsg() // ACK
	m, inv = e.nextMsg()
	e.give(m, e.answer(inv, 302, false))
	e.nextMsg() // ACK
	m, inv = e.nextMsg()
	e.give(m, e.answer(inv, 486, true))
	e.nextMsg() // ACK
	for range rep {
	}
}

func (e *env) request(method string, n int) *sip.Msg {
	return &sip.Msg{Method: method, Request: &sip.URI{Scheme: "sip", User: fmt.Sprint("u", n), Host: e.ip(0, 10+n), Port: uint16(5100 + n)}, Subject: fmt.Sprintf("to %d of %d", n, e.k),
		To: &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "to", Host: e.host()}, Display: fmt.Sprintf("T \"%d\"", e.k)}}
}

func transport(e *env) {
	tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", User: fmt.Sprint("me", e.k), Host: e.ip(4, 1)}})
	if err != nil {
		panic(err)
	}
	for n, method := range []string{"OPTIONS", "REGISTER", "MESSAGE"} {
		r := e.request(method, n)
		if n == 2 {
			r.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(0, 66)}, Next: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(0, 67), Param: &sip.URIParam{Name: "lr"}}}}
			r.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(fmt.Sprintf("text %d", e.k))}
		}
		e.say("end", "%v", tp.Send(r))
		m, q := e.nextMsg()
		e.give(m, e.answer(q, 200, n == 1))
		rsp := <-tp.C
		e.say("got", "%s", rsp)
	}
	q := e.request("MESSAGE", 5)
	q.Via = &sip.Via{Host: e.ip(5, 1), Port: 5077, Param: &sip.Param{Name: "branch", Value: fmt.Sprint("z9hG4bK", e.k)}}
	q.CallID, q.CSeq, q.CSeqMethod, q.From, q.MaxForwards = fmt.Sprint("id", e.k), 3, "MESSAGE", q.To, 5
	e.giveTo(tp.Sock, netUDP(e.ip(5, 2)+":6001"), q.String())
	req := <-tp.C
	e.say("got", "%s", req)
	e.say("end", "%v", tp.Send(dialog.NewResponse(req, 404)))
	e.next()
	tp.Sock.Close()
	e.say("end", "%v", <-tp.E)
	_, ok := <-tp.C
	e.say("end", "%v", ok)
}

// receiving holds on to what it received for a while.
func receiving(e *env) {
	tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(4, 2), Port: uint16(5090 + e.k)}})
	if err != nil {
		panic(err)
	}
	var held []*sip.Msg
	for n := 0; n < 4; n++ {
		q := e.request([]string{"INVITE", "OPTIONS", "INFO", "BYE"}[n], n)
		q.Via = &sip.Via{Host: e.ip(5, n), Port: uint16(5070 + n)}
		q.CallID, q.CSeq, q.CSeqMethod, q.From, q.Contact, q.MaxForwards = fmt.Sprintf("id%d.%d", e.k, n), 3, q.Method, q.To, q.To, 7
		q.XHeader = &sip.XHeader{Name: "X-N", Value: []byte(fmt.Sprint(n, " of ", e.k))}
		q.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(strings.Repeat(fmt.Sprint(e.k, n), 20))}
		e.giveTo(tp.Sock, netUDP(e.ip(5, 9)+":6001"), q.String())
		if n == 1 {
			e.giveTo(tp.Sock, netUDP(e.ip(5, 9)+":6001"), "nonsense\r\n\r\n")
		}
		held = append(held, <-tp.C)
	}
	for _, m := range held {
		e.say("got", "%s", m)
		c := m.Copy()
		c.Via.Param = nil
		e.say("got", "%s", c)
	}
	tp.Sock.Close()
	e.say("end", "%v", <-tp.E)
}

func session(e *env) {
	rs, err := rtp.NewSession(e.ip(6, 1))
	if err != nil {
		panic(err)
	}
	ssrc := rs.Header.Ssrc
	rs.Header.Ssrc, rs.Header.Seq, rs.Header.TS = 0x01010101*uint32(e.k), uint16(7*e.k), uint32(1000*e.k)
	rs.Peer = netUDP(fmt.Sprintf("%s:%d", e.ip(7, 1), 7000+e.k))
	var f rtp.Frame
	for i := range f {
		f[i] = int16(i*100*e.k - 8000)
	}
	ok := func(err error) {
		if err != nil {
			e.say("end", "%v", err)
		}
	}
	ok(rs.Send(&f))
	e.next()
	ok(rs.SendDTMF("5#"[e.k-1]))
	for i := 0; i < 7; i++ {
		e.next()
	}
	ok(rs.SendRaw(uint8(100+e.k), []byte(fmt.Sprintf("raw %d", e.k)), 160))
	e.next()
	ok(rs.Send(&f))
	e.next()
	for n := 0; n < 3; n++ {
		b := (&rtp.Header{Seq: uint16(n), TS: uint32(160 * n), Ssrc: 1}).Write(nil)
		for i := 0; i < 160; i++ {
			b = append(b, byte(i*e.k+n))
		}
		rs.Sock.Inject(vnet.Packet{Data: b, Addr: rs.Peer})
		fr := <-rs.C
		e.say("got", "%v", *fr)
		rs.R <- fr
	}
	rs.Close()
	e.say("end", "%v %v", rs.Sock == nil, ssrc == rs.Header.Ssrc)
}

func generators(e *env) {
	// No operation of the network in it, so others come before or after
	// its parts: it takes turns by sending a datagram of its own.
	turn := func() {
		if f := vnet.Cur.Yield; f != nil {
			f("turn", e.ip(0, 0), nil)
		}
	}
	g := dsp.NewAWGN(-20 - float64(e.k))
	u := []*sip.URI{}
	for n := 0; n < 6; n++ {
		for i := 0; i < 5; i++ {
			e.say("got", "%d", g.Get())
		}
		turn()
		var d, s [160]int16
		for i := range d {
			d[i], s[i] = int16(i*200*e.k), int16(i*77*n)
		}
		dsp.L16MixSat160(&d[0], &s[0])
		e.say("got", "%v %d %d", d, dsp.LinearToUlaw(int64(s[9])), dsp.UlawToLinear(int64(n*40+e.k)))
		a, err := sip.ParseURI([]byte(fmt.Sprintf("sip:u%%4%d@h%d;p=%d?h=%d", e.k, e.k, n, n)))
		e.say("got", "%v %v", a, err)
		u = append(u, a)
		sd := sdp.New(netUDP(e.ip(1, n)+":500"), sdp.ULAWCodec)
		sd.Origin.ID, sd.Origin.Version = "1", "1"
		e.say("got", "%s", sd)
		turn()
		m, err := sip.ParseMsg([]byte(e.answer(e.full(), 200, true)))
		e.say("got", "%v %s", err, m)
		turn()
		e.say("got", "%s", m)
	}
	for _, a := range u {
		e.say("got", "%v", a)
	}
}

// full is a complete request.
func (e *env) full() *sip.Msg {
	m := e.invite()
	m.Via = &sip.Via{Host: e.ip(1, 1), Param: &sip.Param{Name: "branch", Value: fmt.Sprint("z9hG4bK-f", e.k)}}
	m.To = &sip.Addr{Uri: m.Request, Display: "x\\y"}
	m.From.Param = &sip.Param{Name: "tag", Value: fmt.Sprint("f", e.k)}
	m.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "c", Host: e.ip(1, 2)}}
	m.CallID, m.CSeq, m.CSeqMethod = fmt.Sprint("call", e.k), 40+e.k, "INVITE"
	return m
}

var _ = syscall.ECONNREFUSED
