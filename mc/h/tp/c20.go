package tph

import (
	"errors"
	"fmt"
	"net"
	"strconv"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
)

// gram is a datagram and where it comes from.
type gram struct {
	name string
	text string
	src  string
}

const peerSrc = "10.0.0.7:5081"

func req(uri, via, route, more, body string) string {
	s := "INVITE " + uri + " SIP/2.0\r\n"
	for _, v := range strings.Split(via, "|") {
		if v != "" {
			s += "Via: SIP/2.0/UDP " + v + "\r\n"
		}
	}
	if route != "" {
		s += "Route: " + route + "\r\n"
	}
	return s + "From: <sip:a@a.example>;tag=f\r\nTo: <sip:b@b.example>\r\nCall-ID: c" + strconv.Itoa(len(uri)+len(via)) + "\r\nCSeq: 7 INVITE\r\nMax-Forwards: 9\r\n" + more + "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
}

func answer(via string) string {
	s := "SIP/2.0 200 OK\r\n"
	for _, v := range strings.Split(via, "|") {
		s += "Via: SIP/2.0/UDP " + v + "\r\n"
	}
	return s + "From: <sip:a@a.example>;tag=f\r\nTo: <sip:b@b.example>;tag=t\r\nCall-ID: r\r\nCSeq: 7 INVITE\r\nContact: <sip:b@10.0.0.7>\r\nContent-Length: 0\r\n\r\n"
}

const sdpType = "Content-Type: application/sdp\r\n"
const sdpBody = "v=0\r\no=- 1 2 IN IP4 10.0.0.7\r\ns=call\r\nc=IN IP4 10.0.0.7\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\na=rtpmap:0 PCMU/8000\r\na=sendrecv\r\n"

var grams = []gram{
	{"request", req("sip:b@b.example", "10.0.0.7:5081;branch=z9hG4bK-1", "", "", ""), peerSrc},
	{"request from another address and port", req("sip:b@b.example", "10.0.0.7:5081;branch=z9hG4bK-1", "", "", ""), "192.0.2.5:999"},
	{"request asking for rport", req("sip:b@b.example", "nat.example:5081;rport;branch=z9hG4bK-2|10.0.0.3;rport", "", "", ""), peerSrc},
	{"request with body", req("sip:b@b.example", "10.0.0.7:5081;branch=z9hG4bK-3", "", sdpType, sdpBody), peerSrc},
	{"other body", req("sip:b@b.example", "10.0.0.7:5081;branch=z9hG4bK-3", "", "Content-Type: text/plain\r\nX-One: two\r\n", "hello\r\nthere"), peerSrc},
	{"through us", req("sip:b@b.example", "10.0.0.7:5081;branch=z9hG4bK-4", "<sip:10.0.0.99:5070;lr>, <sip:p.example;lr>", "", ""), peerSrc},
	{"through a strict router", req("sip:10.0.0.99:5070;lr", "10.0.0.7:5081;branch=z9hG4bK-5", "<sip:p.example;lr>, <sip:real@b.example:5066>", "", ""), peerSrc},
	{"response", answer("10.0.0.99:5070;branch=z9hG4bK-6"), "192.0.2.5:999"},
	{"large request", req("sip:b@b.example", "10.0.0.7:5081;branch=z9hG4bK-7", "", "Content-Type: text/plain\r\n", strings.Repeat("0123456789abcdef", 130)), peerSrc},
	{"garbage", "hello", peerSrc},
	{"nothing", "", peerSrc},
	{"keep-alive", "\r\n\r\n", peerSrc},
	{"half a request", req("sip:b@b.example", "10.0.0.7:5081;branch=z9hG4bK-1", "", "", "")[:60], peerSrc},
	{"request without Via", req("sip:b@b.example", "", "", "", ""), peerSrc},
	{"response without Via", strings.Replace(answer("x"), "Via: SIP/2.0/UDP x\r\n", "", 1), peerSrc},
	{"body shorter than announced", strings.Replace(req("sip:b@b.example", "10.0.0.7:5081", "", "Content-Type: text/plain\r\n", "hello"), "Content-Length: 5", "Content-Length: 9", 1), peerSrc},
}

// expect is the message a datagram becomes; nil if none. soft tells that the
// port our default stands for may be recorded or not.
func expect(g gram, lhost string, lport uint16, tags bool) (m *sip.Msg, soft bool) {
	m, err := sip.ParseMsg([]byte(g.text))
	if err != nil || m == nil || m.Via == nil {
		return nil, false
	}
	h, ps, _ := net.SplitHostPort(g.src)
	p, _ := strconv.Atoi(ps)
	if m.Status == 0 {
		if int(m.Via.Port) != p {
			q := m.Via.Param
			for ; q != nil && !strings.EqualFold(q.Name, "rport"); q = q.Next {
			}
			switch {
			case q == nil && m.Via.Port == 0 && p == 5060:
				soft = true
			case q == nil:
				m.Via.Param = &sip.Param{Name: "rport", Value: ps, Next: m.Via.Param}
			case q.Value == "":
				q.Value = ps
			}
		}
		if m.Via.Host != h {
			if _, ok := get(m.Via.Param, "received"); !ok {
				m.Via.Param = &sip.Param{Name: "received", Value: h, Next: m.Via.Param}
			}
		}
		own := &sip.Addr{Uri: uri(lhost, lport, false)}
		if isOwn(own, m.Route) {
			m.Route = m.Route.Next
		}
		if m.Route != nil && hasLR(m.Request) && m.Request.Host == lhost && or5060(m.Request.Port) == lport {
			last := &m.Route
			for (*last).Next != nil {
				last = &(*last).Next
			}
			m.Request = (*last).Uri
			*last = nil
		}
	}
	if tags {
		m.Via.Param = &sip.Param{Name: "usi", Value: strconv.FormatInt(time.Now().UnixNano()/1000, 10), Next: m.Via.Param}
	}
	return m, soft
}

// sorted makes the order of the parameters added to a Via immaterial.
func canon(m *sip.Msg) string {
	c := m.Copy()
	for _, name := range []string{"received", "rport", "usi"} {
		if v, ok := get(c.Via.Param, name); ok {
			unset(c.Via, name)
			c.Via.Param = &sip.Param{Name: name, Value: v, Next: c.Via.Param}
		}
	}
	return mc.Dump(c)
}

func sameMsg(got, want *sip.Msg, soft bool) (bool, string) {
	g, w := canon(got), canon(want)
	if g == w {
		return true, ""
	}
	if soft {
		want.Via.Param = &sip.Param{Name: "rport", Value: "5060", Next: want.Via.Param}
		if canon(want) == g {
			return true, ""
		}
		w = canon(want)
	}
	return false, differ("message", g, w)
}

// inbox is a transport and an application reading it.
type inbox struct {
	x     *mc.X
	w     *vnet.World
	tp    *dialog.Transport
	port  uint16
	tags  bool
	got   []*sip.Msg
	dumps []string
	errs  []error
	end   int // channels seen closed
	gate  chan bool
}

func newInbox(x *mc.X, port uint16, tags, lazy bool) *inbox {
	w := vnet.NewWorld()
	vnet.Cur = w
	setFlag("timestampTagging", strconv.FormatBool(tags))
	setFlag("trace", strconv.FormatBool(tags))
	tp, err := dialog.NewTransport(&sip.Addr{Uri: uri("10.0.0.99", port, false)})
	if err != nil {
		x.Violate("no transport", "%v", err)
	}
	b := &inbox{x: x, w: w, tp: tp, port: port, tags: tags, gate: make(chan bool)}
	if !lazy {
		close(b.gate)
	}
	x.OnCut(func() {
		tp.Sock.Close()
		select {
		case <-b.gate:
		default:
			close(b.gate)
		}
	})
	go func() {
		c, e := tp.C, tp.E
		<-b.gate
		for c != nil || e != nil {
			select {
			case m, ok := <-c:
				if !ok {
					c = nil
					b.end++
					continue
				}
				b.got = append(b.got, m)
				b.dumps = append(b.dumps, mc.Dump(m))
			case err, ok := <-e:
				if !ok {
					e = nil
					b.end++
					continue
				}
				b.errs = append(b.errs, err)
			}
		}
	}()
	return b
}

func (b *inbox) put(g gram) {
	h, ps, _ := net.SplitHostPort(g.src)
	p, _ := strconv.Atoi(ps)
	b.tp.Sock.Inject(vnet.Packet{Data: []byte(g.text), Addr: &net.UDPAddr{IP: net.ParseIP(h), Port: p}})
}

// finish ends the transport and judges everything that was delivered.
func (b *inbox) finish(wants []*sip.Msg, softs []bool, how int) {
	x := b.x
	switch how {
	case 0:
		b.tp.Sock.Close()
	case 1:
		b.tp.Sock.Inject(vnet.Packet{Err: b.tp.Sock.Broken("read")})
	case 2:
		b.tp.Sock.Inject(vnet.Packet{Err: b.tp.Sock.Refused("read")})
	}
	select {
	case <-b.gate:
	default:
		close(b.gate)
	}
	synctest.Wait()
	x.Checked(1)
	if len(b.got) != len(wants) && how != 0 {
		x.Violate("number of messages", "%d delivered, should be %d", len(b.got), len(wants))
	}
	for i, m := range b.got {
		if i >= len(wants) {
			x.Violate("number of messages", "%d delivered, should be %d", len(b.got), len(wants))
		}
		if ok, d := sameMsg(m, wants[i], softs[i]); !ok {
			x.Violate("message", "message %d: %s", i, d)
		}
		if s := mc.Dump(m); s != b.dumps[i] {
			x.Violate("delivered message changed", "message %d: %s", i, differ("message", s, b.dumps[i]))
		}
	}
	if len(b.errs) != 1 || b.errs[0] == nil {
		x.Violate("error not reported once", "%v", b.errs)
	}
	is := []error{net.ErrClosed, syscall.ENETDOWN, syscall.ECONNREFUSED}[how]
	if !errors.Is(b.errs[0], is) && how != 1 {
		x.Violate("other error reported", "%v, should be %v", b.errs[0], is)
	}
	if b.end != 2 {
		x.Violate("channels not closed", "%d of 2 are closed", b.end)
	}
	setFlag("timestampTagging", "false")
	setFlag("trace", "false")
}

func init() {
	var list []string
	for _, g := range grams {
		list = append(list, g.name)
	}
	n := mc.Pick(4, 5)
	mc.Add(&mc.Suite{Prop: "C20", Name: "history", Split: 5, Bound: fmt.Sprintf("every sequence of %d datagrams of %d (%s), read at once or only at the end, the socket then being closed, broken or refused; with and without timestamps", n, len(grams), strings.Join(list, "; ")),
		Run: func(x *mc.X) {
			lazy, tags, how := x.Bool("read late"), x.Bool("timestamps"), x.Choose(3, "end")
			if lazy && how == 0 {
				how = 1 // what waits when the socket is closed may be lost
			}
			leaked := x.Bubble(func() {
				b := newInbox(x, 5070, tags, lazy)
				var wants []*sip.Msg
				var softs []bool
				for i := 0; i < n; i++ {
					g := grams[x.Choose(len(grams), "datagram")]
					if tags && !lazy {
						time.Sleep(time.Millisecond)
					}
					x.Logf("%s from %s", g.name, g.src)
					b.put(g)
					x.Step(1)
					if m, soft := expect(g, "10.0.0.99", 5070, tags); m != nil {
						wants, softs = append(wants, m), append(softs, soft)
					}
					if !lazy {
						synctest.Wait()
						if len(b.got) != len(wants) {
							x.Violate("not delivered", "%d of %d messages after %s", len(b.got), len(wants), g.name)
						}
					}
				}
				b.finish(wants, softs, how)
				x.Cover("state", fmt.Sprint(len(wants), lazy, how, strings.Join(b.dumps, "")))
			})
			if leaked {
				x.Violate("task left", "")
			}
		}})

	uris := []string{"sip:b@b.example", "sip:10.0.0.99:5070;lr", "sip:10.0.0.99;lr", "sip:10.0.0.99:5070", "sip:x@10.0.0.99:5071;lr", "sip:10.0.0.98:5070;lr", "sip:10.0.0.99:5060;lr=on"}
	entries := []string{"<sip:10.0.0.99:5070;lr>", "<sip:10.0.0.99;lr>", "<sip:10.0.0.99:5071;lr>", "<sip:10.0.0.98:5070>", "<sip:p.example;lr>;rp=1", "\"D\" <sip:q.example:5072>", "<sip:10.0.0.99:5060>"}
	vs := []string{"10.0.0.7:5081", "10.0.0.7:5081;rport", "10.0.0.7", "nat.example:5081;branch=z9hG4bK-1", "10.0.0.7:5082;rport=77", "10.0.0.8:5081;received=1.2.3.4", "[2001:db8::7]:5081;rport", "10.0.0.7:5081;received=10.0.0.7;rport=5081;branch=z", "10.0.0.7;rport|second.example;branch=x", "10.0.0.70:5081;Received;RPORT", "10.0.0.7:5081;maddr=1.1.1.1;ttl=1"}
	srcs := []string{"10.0.0.7:5081", "10.0.0.7:5060", "192.0.2.5:65535", "[2001:db8::7]:5081"}
	k := mc.Pick(3, 4)
	mc.Add(&mc.Suite{Prop: "C20", Name: "fix-ups", Split: 3, Bound: fmt.Sprintf("every combination of %d request URIs, Route of up to %d of %d entries and bound to port 5070 or 5060; %d Via lists from %d sources, requests and responses", len(uris), k, len(entries), len(vs), len(srcs)),
		Run: func(x *mc.X) {
			port := []uint16{5070, 5060}[x.Choose(2, "port")]
			own := &sip.Addr{Uri: uri("10.0.0.99", port, false)}
			var gs []gram
			if x.Bool("origin") {
				v, s := vs[x.Choose(len(vs), "via")], srcs[x.Choose(len(srcs), "source")]
				gs = append(gs, gram{"request", req("sip:b@b.example", v, "", "", ""), s}, gram{"response", answer(v), s})
			} else {
				u := uris[x.Choose(len(uris), "request URI")]
				var rs []string
				var firsts int
				for len(rs) < k {
					i := x.Choose(len(entries)+1, "entry")
					if i == 0 {
						break
					}
					rs = append(rs, entries[i-1])
					a, _ := sip.ParseMsg([]byte(req("sip:b@b.example", "h", entries[i-1], "", "")))
					if isOwn(own, a.Route) && firsts == len(rs)-1 {
						firsts++
					}
				}
				m, err := sip.ParseURI([]byte(u))
				if err != nil || firsts > 1 || firsts == 1 && len(rs) == 1 && hasLR(m) && isOwn(own, &sip.Addr{Uri: m}) {
					x.Skip() // our own entry twice, or mangled without what it was: not settled
				}
				gs = append(gs, gram{"request", req(u, "10.0.0.7:5081", strings.Join(rs, ", "), "", ""), peerSrc})
			}
			leaked := x.Bubble(func() {
				b := newInbox(x, port, false, false)
				var wants []*sip.Msg
				var softs []bool
				for _, g := range gs {
					x.Logf("%s from %s", g.text, g.src)
					b.put(g)
					x.Step(1)
					m, soft := expect(g, "10.0.0.99", port, false)
					if m == nil {
						x.Violate("harness", "%s", g.text)
					}
					wants, softs = append(wants, m), append(softs, soft)
					synctest.Wait()
				}
				b.finish(wants, softs, 1)
				x.Cover("state", strings.Join(b.dumps, ""))
			})
			if leaked {
				x.Violate("task left", "")
			}
		}})
	mc.Add(&mc.Suite{Prop: "C20", Name: "ports", Bound: "every source port, with four Via forms",
		N: func() int64 { return 256 },
		Case: func(x *mc.X, i int64) {
			x.Bubble(func() {
				b := newInbox(x, 5070, false, false)
				var wants []*sip.Msg
				var softs []bool
				for p := i * 256; p < i*256+256; p++ {
					if p == 0 {
						continue
					}
					for _, v := range []string{"10.0.0.7:" + fmt.Sprint(p), "10.0.0.7:" + fmt.Sprint(p%65535+1) + ";rport", "10.0.0.7", "n.example:5081"} {
						g := gram{"request", req("sip:b@b.example", v, "", "", ""), "10.0.0.7:" + fmt.Sprint(p)}
						b.put(g)
						x.Step(1)
						m, soft := expect(g, "10.0.0.99", 5070, false)
						wants, softs = append(wants, m), append(softs, soft)
						synctest.Wait()
					}
				}
				b.finish(wants, softs, 1)
			})
		}})
	// Sizes: every datagram length up to the largest UDP allows is delivered
	// whole.
	mc.Add(&mc.Suite{Prop: "C20", Name: "sizes", Bound: "bodies of every length 0..2500 and around 4096, 8192, 16384, 32768 and the largest datagram, followed by a small message",
		N: func() int64 { return 2501 + 5*40 },
		Case: func(x *mc.X, i int64) {
			head := len(req("sip:b@b.example", "10.0.0.7:5081", "", "Content-Type: text/plain\r\n", ""))
			size := int(i)
			if i > 2500 {
				k := (i - 2501) / 40
				size = []int{4096, 8192, 16384, 32768, 65507 - 19}[k] - head - 20 + int(i-2501)%40
			}
			g := gram{"sized", req("sip:b@b.example", "10.0.0.7:5081", "", "Content-Type: text/plain\r\n", strings.Repeat("y", size)), peerSrc}
			if len(g.text) > 65507 {
				x.Skip()
			}
			x.Bubble(func() {
				b := newInbox(x, 5070, false, i%2 == 0)
				var wants []*sip.Msg
				for _, g := range []gram{g, grams[0], g} {
					b.put(g)
					x.Step(1)
					m, _ := expect(g, "10.0.0.99", 5070, false)
					wants = append(wants, m)
				}
				b.finish(wants, []bool{false, false, false}, 1)
			})
		}})
}
