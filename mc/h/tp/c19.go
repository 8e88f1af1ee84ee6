package tph

import (
	"crypto/rand"
	"errors"
	"fmt"
	"net"
	"strconv"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
)

// ids are the identifiers seen so far; each may be generated only once.
type ids map[string]bool

// complete fills in what a request lacks, taking the generated parts from the
// message as completed by the code, after judging them.
func complete(x *mc.X, seen ids, via *sip.Via, contact *sip.Addr, m, got *sip.Msg) {
	if m.Status > 0 {
		return
	}
	fresh := func(what, id string, ok bool) {
		if !ok {
			x.Violate("completed: "+what, "%q", id)
		}
		if what != "CSeq" && seen[what+id] {
			x.Violate("completed: "+what+" used again", "%q", id)
		}
		seen[what+id] = true
	}
	if m.Via == nil {
		v := *via
		m.Via = &v
	}
	if m.Contact == nil {
		m.Contact = contact
	}
	if m.To == nil {
		m.To = &sip.Addr{Uri: m.Request}
	}
	if m.From == nil {
		u := *m.Contact.Uri
		u.Param = nil
		f := &sip.Addr{Uri: &u}
		if got.From != nil { // the rest of our own address may come along
			f.Display, f.Param = got.From.Display, got.From.Param
			if m.Contact.Display != got.From.Display && got.From.Display != "" {
				x.Violate("completed: From", "%s", got.From)
			}
			for p := got.From.Param; p != nil; p = p.Next {
				if v, ok := get(m.Contact.Param, p.Name); p.Name != "tag" && (!ok || v != p.Value) {
					x.Violate("completed: From", "%s", got.From)
				}
			}
		}
		m.From = f
		t, _ := get(got.From.Param, "tag")
		fresh("tag", t, tagShape.MatchString(t))
	}
	if _, ok := get(m.From.Param, "tag"); !ok {
		t, _ := get(got.From.Param, "tag")
		fresh("tag", t, tagShape.MatchString(t))
		m.From.Param = &sip.Param{Name: "tag", Value: t, Next: m.From.Param}
	}
	if m.CallID == "" {
		m.CallID = got.CallID
		fresh("Call-ID", got.CallID, callIDShape.MatchString(got.CallID))
	}
	if m.CSeq == 0 {
		m.CSeq = got.CSeq
		if got.CSeq < 1 || got.CSeq > 1<<31-1 {
			x.Violate("completed: CSeq", "%d", got.CSeq)
		}
	}
	if m.CSeqMethod == "" {
		m.CSeqMethod = m.Method
	}
	if m.MaxForwards == 0 {
		m.MaxForwards = 70
	}
	if m.UserAgent == "" {
		m.UserAgent = got.UserAgent
		if got.UserAgent == "" {
			x.Violate("completed: User-Agent", "missing")
		}
	}
	if _, ok := get(m.Via.Param, "branch"); !ok {
		b, _ := get(got.Via.Param, "branch")
		fresh("branch", b, branchShape.MatchString(b))
		m.Via.Param = &sip.Param{Name: "branch", Value: b, Next: m.Via.Param}
	}
}

type absent struct{ via, branch, contact, to, from, ftag, callid, cseq, method, mf, ua bool }

func (a absent) msg(method string, status, form int) *sip.Msg {
	m := base(method, status)
	m.MaxForwards, m.CSeq, m.UserAgent = 9, 7, "ua"
	m.Via = &sip.Via{Host: "nat.example", Port: 5999, Transport: "TCP", Param: params("rport", "", "branch", "z9hG4bK-app", "x", "")}
	if form == 1 {
		m.Via.Next = &sip.Via{Host: "second.example", Param: params("branch", "z9hG4bK-second")}
		m.Contact.Param = params("q", "0.5")
		m.Contact.Display = "C"
		m.Contact.Uri.User = "carol"
		m.Contact.Uri.Param = &sip.URIParam{Name: "transport", Value: "tcp"}
		m.CSeqMethod = "PUBLISH" // the application's own choice
		// Names of parameters are the same in any case.
		m.From.Param = params("TAG", "f1")
		m.Via.Param = params("RPort", "", "Branch", "z9hG4bK-app", "x", "")
	}
	if a.branch {
		m.Via.Param = params("rport", "", "x", "")
	}
	if a.via {
		m.Via = nil
	}
	if a.contact {
		m.Contact = nil
	}
	if a.to {
		m.To = nil
	}
	if a.ftag {
		m.From.Param = params("y", "1")
	}
	if a.from {
		m.From = nil
	}
	if a.callid {
		m.CallID = ""
	}
	if a.cseq {
		m.CSeq = 0
	}
	if a.method {
		m.CSeqMethod = ""
	}
	if a.mf {
		m.MaxForwards = 0
	}
	if a.ua {
		m.UserAgent = ""
	}
	return m
}

func ownVia(form int) *sip.Via {
	v := &sip.Via{Host: "10.0.0.99", Port: 5070}
	if form == 1 {
		v.Param = params("rport", "")
		v.Transport = "TLS"
	}
	return v
}

func ownContact(form int) *sip.Addr {
	a := &sip.Addr{Uri: uri("10.0.0.99", 5070, false)}
	a.Uri.Param = &sip.URIParam{Name: "transport", Value: "udp"}
	if form == 1 {
		a.Display, a.Param = "Own", params("q", "1")
		a.Uri.User = "own"
	}
	return a
}

func initPopulate() {
	mc.Add(&mc.Suite{Prop: "C19", Name: "populate", Bound: "every subset of 11 absent elements, 3 kinds of requests or a response, two forms of message (one with a CSeq method of its own) and of own addresses, the first CSeq drawn 0 or not",
		N: func() int64 { return 2048 },
		Case: func(x *mc.X, i int64) {
			b := func(k int) bool { return i>>k&1 == 1 }
			a := absent{b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7), b(8), b(9), b(10)}
			if a.via && a.branch || a.from && a.ftag {
				x.Skip()
			}
			for k := 0; k < 4*2*2*2; k++ {
				form, own, zero, kind := k%2, k/2%2, k/4%2, k/8
				rand.Reader = &entropy{zeros: zero}
				status := 0
				if kind == 3 {
					status = 200
					if a.cseq || a.callid || a.from || a.to || a.via {
						// still must not be touched
					}
				}
				method := []string{"INVITE", "OPTIONS", "REGISTER", ""}[kind]
				via, contact := ownVia(own), ownContact(own)
				if !a.via && !a.contact && k%3 == 0 {
					via, contact = nil, nil // not needed
				}
				m, want := a.msg(method, status, form), a.msg(method, status, form)
				before := fmt.Sprint(dumps([]any{via, contact}))
				x.NoCrash("crash", func() { dialog.PopulateMessage(via, contact, m) })
				x.Step(1)
				x.Checked(1)
				if s := fmt.Sprint(dumps([]any{via, contact})); s != before {
					x.Violate("own addresses changed", "%s", differ("own addresses", s, before))
				}
				complete(x, ids{}, ownVia(own), ownContact(own), want, m)
				if g, w := mc.Dump(m), mc.Dump(want); g != w {
					x.Violate("completed message", "%+v\n%s", a, differ("message", g, w))
				}
				// Completing again changes nothing.
				once := mc.Dump(m)
				dialog.PopulateMessage(via, contact, m)
				if s := mc.Dump(m); s != once {
					x.Violate("completed twice", "%s", differ("message", s, once))
				}
				x.CoverH("distinct", mc.Hash(mc.Dump(want)))
			}
		}})
}

// ---- sending ----

type mail struct {
	name string
	f    func() *sip.Msg
}

func small(method, host string, port uint16) *sip.Msg {
	return &sip.Msg{Method: method, Request: &sip.URI{Scheme: "sip", User: "bob", Host: host, Port: port}}
}

func rsp(vs ...*sip.Via) *sip.Msg {
	return &sip.Msg{Status: 200, Phrase: "OK", Via: vias(vs...), From: named("from.example", "f"), To: named("to.example", "t"), CallID: "c", CSeq: 3, CSeqMethod: "OPTIONS"}
}

func mine() *sip.Via {
	return &sip.Via{Host: "10.0.0.99", Port: 5070, Param: params("branch", "z9hG4bK-mine")}
}

func peer(p ...string) *sip.Via { return &sip.Via{Host: "10.0.0.7", Port: 5081, Param: params(p...)} }

var mails = []mail{
	{"INVITE to an address", func() *sip.Msg { return small("INVITE", "10.0.0.1", 0) }},
	{"OPTIONS to a name and port", func() *sip.Msg { return small("OPTIONS", "one.example", 5066) }},
	{"REGISTER to a name", func() *sip.Msg { return small("REGISTER", "one.example", 0) }},
	{"INVITE to IPv6", func() *sip.Msg { return small("INVITE", "2001:db8::1", 5067) }},
	{"INVITE to an unknown name", func() *sip.Msg { return small("INVITE", "none.example", 0) }},
	{"complete BYE", func() *sip.Msg { return absent{}.msg("BYE", 0, 1) }},
	{"BYE through own and loose route", func() *sip.Msg {
		m := small("BYE", "10.0.0.1", 0)
		m.Route = addrs(&sip.Addr{Uri: uri("10.0.0.99", 5070, true)}, &sip.Addr{Uri: uri("10.0.0.9", 5099, true)})
		return m
	}},
	{"BYE through a strict route", func() *sip.Msg {
		m := small("BYE", "10.0.0.1", 0)
		m.Route = addrs(&sip.Addr{Uri: uri("10.0.0.8", 0, false)}, &sip.Addr{Uri: uri("10.0.0.9", 5099, true)})
		return m
	}},
	{"routed REGISTER", func() *sip.Msg {
		m := small("REGISTER", "10.0.0.1", 0)
		m.Route = &sip.Addr{Uri: uri("10.0.0.9", 5099, true)}
		return m
	}},
	{"contact given, no From", func() *sip.Msg {
		m := small("INVITE", "10.0.0.1", 0)
		m.Contact = ownContact(1)
		return m
	}},
	{"last hop", func() *sip.Msg { m := small("INVITE", "10.0.0.1", 0); m.MaxForwards = 1; return m }},
	{"two hops", func() *sip.Msg { m := small("INVITE", "10.0.0.1", 0); m.MaxForwards = 2; return m }},
	{"255 hops and a body", func() *sip.Msg {
		m := small("MESSAGE", "10.0.0.1", 65535)
		m.MaxForwards = 255
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte("hello\r\n\r\nworld")}
		return m
	}},
	{"response with own Via", func() *sip.Msg { return rsp(mine(), peer("branch", "z9hG4bK-p")) }},
	{"response", func() *sip.Msg { return rsp(peer("branch", "z9hG4bK-p", "received", "192.0.2.7", "rport", "999")) }},
	{"response to nowhere", func() *sip.Msg { return rsp(mine()) }},
	{"response with bad rport", func() *sip.Msg { return rsp(peer("rport", "999999")) }},
	{"response to a name", func() *sip.Msg { return rsp(&sip.Via{Host: "one.example", Param: params("rport", "")}, mine()) }},
}

const againMail = 1000 // the message before once more

type post struct {
	x    *mc.X
	w    *vnet.World
	tp   *dialog.Transport
	seen ids
	via  string
	con  string
	last *sip.Msg
	cur  *sip.Msg // reference of last
	tags bool
	n    int
}

func newPost(x *mc.X, form int, tags bool) *post {
	w := vnet.NewWorld()
	vnet.Cur = w
	rand.Reader = &entropy{}
	w.Host = func(name string) ([]net.IP, error) {
		if name == "one.example" {
			return []net.IP{net.IPv4(10, 0, 0, 30).To4()}, nil
		}
		return nil, &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
	}
	setFlag("timestampTagging", strconv.FormatBool(tags))
	setFlag("trace", strconv.FormatBool(tags))
	c := &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "10.0.0.99", Port: 5070}}
	if form == 1 {
		c.Display, c.Param, c.Uri.User = "Own", params("q", "1"), "own"
		c.Uri.Port = 0
		c.Uri.Param = &sip.URIParam{Name: "ob"}
	}
	given := *c.Uri
	tp, err := dialog.NewTransport(c)
	if err != nil || tp == nil {
		x.Violate("no transport", "%v", err)
	}
	p := &post{x: x, w: w, tp: tp, seen: ids{}, tags: tags}
	x.OnCut(func() {
		tp.Sock.Close()
		go func() {
			for range tp.E {
			}
		}()
	})
	la := tp.Sock.LocalAddr().(*net.UDPAddr)
	if la.IP.String() != "10.0.0.99" || form == 0 && la.Port != 5070 {
		x.Violate("transport: bound elsewhere", "%v", la)
	}
	if tp.Via == nil || tp.Via.Host != "10.0.0.99" || int(tp.Via.Port) != la.Port || tp.Via.Next != nil {
		x.Violate("transport: Via", "%v", mc.Dump(tp.Via))
	}
	tr, has := "", false
	for u := given.Param; u != nil; u = u.Next {
		if v := tp.Contact.Uri.Param.Get(u.Name); v == nil || v.Value != u.Value {
			x.Violate("transport: Contact parameter", "%s for %s", tp.Contact, c)
		}
	}
	if mc.Dump(tp.Contact.Param) != mc.Dump(c.Param) {
		x.Violate("transport: Contact parameter", "%s for %s", tp.Contact, c)
	}
	for u := tp.Contact.Uri.Param; u != nil; u = u.Next {
		if u.Name == "transport" {
			tr, has = u.Value, true
		}
	}
	if tp.Contact.Uri.Host != given.Host || int(tp.Contact.Uri.Port) != la.Port || tp.Contact.Uri.User != given.User || tp.Contact.Display != c.Display || tp.Contact.Next != nil || !has || tr != "udp" {
		x.Violate("transport: Contact", "%s for %s bound to %v", tp.Contact, c, la)
	}
	p.via, p.con = mc.Dump(tp.Via), mc.Dump(tp.Contact)
	return p
}

func (p *post) tagText(m *sip.Msg) {
	if p.tags && m.Via != nil {
		m.Via.Param = &sip.Param{Name: "usi", Value: strconv.FormatInt(time.Now().UnixNano()/1000, 10), Next: m.Via.Param}
	}
}

// parts makes the transport's own addresses afresh.
func (p *post) parts() (*sip.Via, *sip.Addr) {
	v := *p.tp.Via
	if v.Param != nil {
		v.Param = v.Param.Copy()
	}
	return &v, p.tp.Contact.Copy()
}

// send sends a message and judges what happened. fault: "" or what the write
// fails with.
func (p *post) send(k int, fault string) {
	x := p.x
	var m, want *sip.Msg
	name := "the same message again"
	if k == againMail {
		m, want = p.last, p.cur
	} else {
		m, want, name = mails[k].f(), mails[k].f(), mails[k].name
	}
	p.last = m
	x.Logf("send %s %s", name, fault)
	cause := errors.New("fault")
	p.w.WriteErr = func(c *vnet.UDPConn, q vnet.Packet) error {
		switch fault {
		case "refused":
			return c.Refused("write")
		case "broken":
			return c.Broken("write")
		case "other":
			return cause
		}
		return nil
	}
	n0 := p.w.Len()
	var err error
	x.NoCrash("crash", func() { err = p.tp.Send(m) })
	x.Step(1)
	x.Checked(1)
	synctest.Wait()
	var ws []vnet.Op
	for _, o := range p.w.Snapshot()[n0:] {
		switch o.Kind {
		case "write":
			ws = append(ws, o)
		case "host":
		default:
			x.Violate("side effect", "%s %s when sending %s", o.Kind, o.Arg, name)
		}
	}
	if s := mc.Dump(p.tp.Via); s != p.via {
		x.Violate("own Via changed", "after %s: %s", name, differ("Via", s, p.via))
	}
	if s := mc.Dump(p.tp.Contact); s != p.con {
		x.Violate("own Contact changed", "after %s: %s", name, differ("Contact", s, p.con))
	}
	// What should have happened.
	v, c := p.parts()
	complete(x, p.seen, v, c, want, m)
	ov, oc := p.parts()
	host, port, rerr := route(ov, oc, want)
	p.cur = want
	to := ""
	if rerr == nil {
		switch {
		case net.ParseIP(host) != nil:
			to = net.JoinHostPort(host, strconv.Itoa(int(or5060(port))))
		case host == "one.example":
			to = "10.0.0.30:" + strconv.Itoa(int(or5060(port)))
		default:
			rerr = errors.New("unknown name")
		}
	}
	if rerr == nil && want.Status == 0 {
		want.MaxForwards--
		if want.MaxForwards <= 0 {
			rerr = errors.New("no hops left")
		}
	}
	if rerr != nil {
		if err == nil {
			x.Violate("no error", "%s: %v", name, rerr)
		}
		if len(ws) > 0 {
			x.Violate("sent in spite of an error", "%s to %s:\n%s", name, ws[0].Pkt.Addr, ws[0].Pkt.Data)
		}
		p.last = nil
		x.Cover("distinct", name+"refused")
		return
	}
	p.tagText(want)
	if len(ws) != 1 {
		x.Violate("not sent once", "%s: %d datagrams, %v", name, len(ws), err)
	}
	if ws[0].Conn != p.tp.Sock {
		x.Violate("sent from elsewhere", "%v", ws[0].Conn.LocalAddr())
	}
	if ws[0].Pkt.Addr.String() != to {
		x.Violate("sent elsewhere", "%s to %s, should be %s", name, ws[0].Pkt.Addr, to)
	}
	if g, w := string(ws[0].Pkt.Data), text(want); g != w {
		x.Violate("datagram", "%s: %s", name, differ("datagram", g, w))
	}
	if fault != "" {
		if err == nil {
			x.Violate("failure to write not reported", "%s %s", name, fault)
		}
		if !errors.Is(err, syscall.ECONNREFUSED) && fault == "refused" || fault == "other" && !errors.Is(err, cause) {
			x.Violate("failure to write hidden", "%v", err)
		}
	} else if err != nil {
		x.Violate("error", "%s: %v", name, err)
	}
	x.Cover("distinct", name+fault+to)
}

// scribble is the application using its message for something else.
func (p *post) scribble() {
	m := p.last
	if m == nil {
		return
	}
	p.x.Logf("the application changes the message it sent")
	for v := m.Via; v != nil; v = v.Next {
		v.Host, v.Port, v.Transport = "x.example", 1, "X"
		for q := v.Param; q != nil; q = q.Next {
			q.Value = "scribbled"
		}
	}
	for _, a := range []*sip.Addr{m.Contact, m.From, m.To} {
		if a != nil {
			a.Display = "scribbled"
			a.Uri.Host, a.Uri.User, a.Uri.Port = "x.example", "x", 2
			for q := a.Param; q != nil; q = q.Next {
				q.Value = "scribbled"
			}
			for q := a.Uri.Param; q != nil; q = q.Next {
				q.Value = "scribbled"
			}
		}
	}
	p.last = nil
	if s := mc.Dump(p.tp.Via); s != p.via {
		p.x.Violate("own Via shared with a message", "%s", differ("Via", s, p.via))
	}
	if s := mc.Dump(p.tp.Contact); s != p.con {
		p.x.Violate("own Contact shared with a message", "%s", differ("Contact", s, p.con))
	}
}

func init() {
	initPopulate()
	var list []string
	for _, m := range mails {
		list = append(list, m.name)
	}
	n := mc.Pick(4, 5)
	mc.Add(&mc.Suite{Prop: "C19", Name: "send", Split: 3, Bound: fmt.Sprintf("every sequence of up to %d sends over one transport of %d messages (%s), the same message again, or a send whose write fails; the application reusing its message or not; two forms of own address; with and without timestamps", n, len(mails), strings.Join(list, "; ")),
		Run: func(x *mc.X) {
			form, tags := x.Choose(2, "own address"), x.Bool("timestamps")
			k := len(mails)
			leaked := x.Bubble(func() {
				p := newPost(x, form, tags)
				for i := 0; i < n; i++ {
					opts := k + 3
					c := x.Choose(opts+1, "send")
					switch {
					case c == 0:
						i = n
					case c <= k:
						p.send(c-1, "")
					case c == k+1:
						if p.last == nil || p.last.Status > 0 {
							x.Skip()
						}
						if p.tags {
							untagAll(p.cur)
							untagAll(p.last)
						}
						p.send(againMail, "")
					case c == k+2:
						p.send(0, []string{"refused", "broken", "other"}[x.Choose(3, "fault")])
					case c == k+3:
						if p.last == nil {
							x.Skip()
						}
						p.scribble()
					}
				}
				p.tp.Sock.Close()
				done := make(chan bool)
				go func() {
					for range p.tp.E {
					}
					for range p.tp.C {
					}
					close(done)
				}()
				synctest.Wait()
				select {
				case <-done:
				default:
					x.Violate("transport does not end", "")
				}
			})
			setFlag("timestampTagging", "false")
			setFlag("trace", "false")
			if leaked {
				x.Violate("task left", "")
			}
		}})
	mc.Add(&mc.Suite{Prop: "C19", Name: "hops", Bound: "every Max-Forwards 0..255, 15 methods, and ports 0, 5060 and 65535, twice over the same transport; responses to each method with every status class",
		N: func() int64 { return 256 * int64(len(hopMethods)) },
		Case: func(x *mc.X, i int64) {
			x.Bubble(func() {
				p := newPost(x, 0, false)
				method := hopMethods[i/256]
				i := i % 256
				ports := []uint16{0, 5060, 65535}
				if i < 8 {
					ports = append(ports, 1, 2, 3, 4, 5, 6)
				}
				for _, port := range ports {
					mails = append(mails, mail{"hops", func() *sip.Msg {
						if port > 0 && port < 10 {
							m := rsp(peer("branch", "z9hG4bK-p", "received", "192.0.2.7"))
							m.Status, m.CSeqMethod, m.MaxForwards = int(port)*100+int(i), method, int(i)
							return m
						}
						m := small(method, "10.0.0.1", port)
						m.MaxForwards = int(i)
						return m
					}})
					p.send(len(mails)-1, "")
					p.send(len(mails)-1, "")
					mails = mails[:len(mails)-1]
				}
				p.tp.Sock.Close()
				go func() {
					for range p.tp.E {
					}
				}()
				synctest.Wait()
			})
		}})
	mc.Add(&mc.Suite{Prop: "C19", Name: "open", Bound: "transports on every form of address: port given or not, bind refused",
		N: func() int64 { return 12 },
		Case: func(x *mc.X, i int64) {
			x.Bubble(func() {
				w := vnet.NewWorld()
				vnet.Cur = w
				if i%3 == 2 {
					w.ListenErr = func(string) error { return vnet.InUse() }
				}
				host := []string{"10.0.0.99", "2001:db8::99", "127.0.0.1", "0.0.0.0"}[i/3]
				c := &sip.Addr{Uri: uri(host, []uint16{0, 5070, 5070}[i%3], false)}
				tp, err := dialog.NewTransport(c)
				x.Step(1)
				if i%3 == 2 {
					if err == nil || !errors.Is(err, syscall.EADDRINUSE) || tp != nil {
						x.Violate("bind failure", "%v", err)
					}
					return
				}
				if err != nil {
					x.Violate("no transport", "%v", err)
				}
				la := tp.Sock.LocalAddr().(*net.UDPAddr)
				if !la.IP.Equal(net.ParseIP(host)) || c.Uri.Port != 0 && int(c.Uri.Port) != la.Port && i%3 == 1 {
					x.Violate("bound elsewhere", "%v", la)
				}
				if int(tp.Contact.Uri.Port) != la.Port || int(tp.Via.Port) != la.Port || tp.Contact.Uri.Host != host || tp.Via.Host != host {
					x.Violate("own address", "%s %v", tp.Contact, mc.Dump(tp.Via))
				}
				x.Cover("distinct", fmt.Sprint("open", i))
				tp.Sock.Close()
				go func() {
					for range tp.E {
					}
				}()
				synctest.Wait()
			})
		}})
}

var hopMethods = []string{"INFO", "INVITE", "ACK", "CANCEL", "BYE", "OPTIONS", "REGISTER", "PRACK", "UPDATE", "MESSAGE", "NOTIFY", "SUBSCRIBE", "REFER", "PUBLISH", "X-ANY"}

func untagAll(m *sip.Msg) {
	if m.Via != nil {
		unset(m.Via, "usi")
	}
}
