package e2eh

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// hop is a proxy on the way.
type hop struct {
	k       *node
	strict  bool // routes as the previous generation did
	record  bool
	rewrite string // sends what is addressed to it on to this host
	rport   uint16
	saw     []string
	ids     int
}

// chain is a way from one end to the other.
type chain struct {
	x    *mc.X
	s    *sim
	hops []*hop
	seen []string // requests, in the order in which hosts saw them
	far  *node
	got  []*sip.Msg // what arrived at the far end
	near []*sip.Msg // what arrived at the near end
	kind string
}

func (c *chain) text() string { return c.kind + "\n" + strings.Join(c.seen, "\n") }

func (c *chain) fail(key, f string, a ...any) {
	c.s.fail(key, "%s\n%s", fmt.Sprintf(f, a...), c.text())
}

func hostPort(u *sip.URI) string {
	p := u.Port
	if p == 0 {
		p = 5060
	}
	return fmt.Sprintf("%s:%d", u.Host, p)
}

func (h *hop) uri() *sip.URI {
	u := &sip.URI{Scheme: "sip", Host: h.k.ip, Port: h.k.port}
	if !h.strict {
		u.Param = &sip.URIParam{Name: "lr"}
	}
	return u
}

func (c *chain) forward(h *hop, m *sip.Msg) {
	if m.IsResponse() {
		c.seen = append(c.seen, fmt.Sprintf("%s: %d (%s)", h.k.name, m.Status, m.CSeqMethod))
		h.k.send(m)
		return
	}
	c.seen = append(c.seen, fmt.Sprintf("%s: %s %s route %s", h.k.name, m.Method, m.Request, m.Route))
	h.saw = append(h.saw, m.Method)
	h.ids++
	m.Via = &sip.Via{Host: h.k.ip, Port: h.k.port, Param: &sip.Param{Name: "branch", Value: fmt.Sprintf("z9hG4bK-%s-%d", h.k.name, h.ids)}, Next: m.Via}
	if m.Method == sip.MethodInvite && tagOf(m.To) == "" && h.record {
		m.RecordRoute = &sip.Addr{Uri: h.uri(), Next: m.RecordRoute}
	}
	mine := m.Request.Host == h.k.ip && hostPort(m.Request) == hostPort(h.uri())
	if mine && h.strict && m.Route != nil {
		m.Request, m.Route = m.Route.Uri, m.Route.Next
		mine = false
	}
	if mine && h.rewrite != "" && m.Route == nil {
		m.Request = m.Request.Copy()
		m.Request.Host, m.Request.Port, m.Request.Param = h.rewrite, h.rport, nil
	}
	if h.strict {
		// Always on to the request's target.
		if m.MaxForwards--; m.MaxForwards <= 0 {
			c.fail("goes round in circles", "%s", m)
		}
		var b bytes.Buffer
		m.Append(&b)
		a, err := net.ResolveUDPAddr("udp", hostPort(m.Request))
		if err == nil {
			cur.raw(b.Bytes())
			_, err = h.k.tp.Sock.WriteTo(b.Bytes(), a)
		}
		if err != nil {
			c.fail("cannot send", "%v", err)
		}
		return
	}
	h.k.send(m)
}

// reachable tells whether requests can be sent to an address at all, here.
func reachable(a *sip.Addr) bool {
	if a == nil || a.Uri == nil || a.Uri.Scheme != "" && a.Uri.Scheme != "sip" {
		return false
	}
	p := a.Uri.Param.Get("transport")
	return p == nil || strings.EqualFold(p.Value, "udp")
}

func (c *chain) names(recording bool) (ns []string) {
	for _, h := range c.hops {
		if !recording || h.record {
			ns = append(ns, h.k.name)
		}
	}
	return
}

func reversed(a []string) (r []string) {
	for i := len(a) - 1; i >= 0; i-- {
		r = append(r, a[i])
	}
	return
}

// check compares the way of the last request with what it has to be.
func (c *chain) check(method string, want []string) {
	var got []string
	for _, l := range c.seen {
		if i := strings.Index(l, ": "+method+" "); i > 0 {
			got = append(got, l[:i])
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.fail("goes another way", "%s by way of %v, should be %v", method, got, want)
	}
	c.seen = nil
}

func init() {
	n := mc.Pick(3, 4)
	mc.Add(&mc.Suite{Prop: "C33", Name: "paths", Split: 4,
		Bound: fmt.Sprintf("every chain of up to %d proxies, each staying on the path or not, routing loosely or strictly, on the default port or another, on a host each or all on one, or the first one a second time; the way given beforehand or chosen by the proxies; the caller a transport or a call, behind a translator (of addresses and ports, of addresses only; the Via asking for the port or not) or not, its inbound socket apart or not; then declined, cancelled, or answered, with requests within the dialog both ways and the end from either side", n),
		Run: func(x *mc.X) {
			call := x.Bool("caller is a call")
			nat := x.OneOf("translator", "none", "ports too", "address only")
			given := x.Bool("way given")
			k := x.Choose(n+1, "proxies")
			kinds := make([]int, k)
			for i := range kinds {
				if i > 1 && given && kinds[i-1] != 6 && kinds[i-1] != 2 && kinds[i-1] != 3 {
					kinds[i] = x.Choose(7, "proxy")
				} else {
					kinds[i] = x.Choose(6, "proxy")
				}
			}
			near := k > 1 && x.Bool("proxies on one host")
			uport := uint16(5060)
			if x.Bool("far port") {
				uport = 5081
			}
			asks := nat != "none" && x.Bool("asks for the port")
			path(x, call, nat, asks, given, near, kinds, uport, x.OneOf("end", "near hangs up", "far hangs up", "declined", "cancelled"))
		}})
	l, m := mc.Pick(4, 5), mc.Pick(5, 7)
	mc.Add(&mc.Suite{Prop: "C33", Name: "long", Split: 5,
		Bound: fmt.Sprintf("every chain of %d to %d proxies, each on the path, on it with another port, off it or strict, with a way given or chosen, the caller a transport or a call, the end from either side, declined or cancelled", l, m),
		Run: func(x *mc.X) {
			call := x.Bool("caller is a call")
			given := x.Bool("way given")
			kinds := make([]int, l+x.Choose(m-l+1, "proxies"))
			for i := range kinds {
				n := 4
				if !given || i == 0 {
					n = 3
				}
				kinds[i] = []int{0, 1, 3, 5}[x.Choose(n, "proxy")]
			}
			if kinds[0] == 3 && call {
				x.Skip()
			}
			path(x, call, "none", false, given, false, kinds, 5060, x.OneOf("end", "near hangs up", "far hangs up", "declined", "cancelled"))
		}})
}

func path(x *mc.X, call bool, translator string, asks, given, near bool, kinds []int, uport uint16, end string) {
	nat := translator != "none"
	// Kinds: 0, 1 on the path; 2, 3 not on the path; 4, 5 strict and on the path; 6 the first once more.
	if !given {
		for _, v := range kinds {
			if v >= 4 {
				x.Skip() // a strict router without a route to go by is a plain one
			}
		}
	}
	first := len(kinds) == 0 || kinds[0] < 2 || kinds[0] >= 4
	if nat && !first {
		x.Skip() // the callee cannot reach the caller
	}
	loose := call && !first
	if loose && !x.Thorough() && len(kinds) > 2 {
		x.Skip()
	}
	world(x, 0, 2, loose, func(s *sim) {
		c := &chain{x: x, s: s}
		if s.nat = nat; translator == "address only" {
			s.shift = 0
		}
		c.kind = fmt.Sprintf("call %v, translator %v (asked for the port %v), given %v, proxies %v (one host %v), port %d, %s", call, translator, asks, given, kinds, near, uport, end)
		for i, v := range kinds {
			if v == 6 {
				c.hops = append(c.hops, c.hops[0])
				continue
			}
			h := &hop{strict: v >= 4, record: v < 2 || v >= 4}
			port := uint16(5060)
			if v%2 == 1 {
				port = uint16(5070 + i)
			}
			ip := fmt.Sprintf("10.0.1.%d", i+1)
			if near {
				ip = "10.0.1.1" // Told apart by their ports.
				if v%2 == 1 || i > 0 {
					port = uint16(5070 + i)
				}
			}
			h.k = s.node(fmt.Sprintf("p%d", i+1), ip, port)
			h.k.on = func(m *sip.Msg) { c.forward(h, m) }
			c.hops = append(c.hops, h)
		}
		far := s.node("far", "10.0.0.2", uport)
		c.far = far
		far.on = func(m *sip.Msg) {
			c.got = append(c.got, m)
		}
		target := &sip.URI{Scheme: "sip", User: "bob", Host: "10.0.0.2", Port: uport, Param: &sip.URIParam{Name: "x", Value: "1"}}
		inv := &sip.Msg{Method: sip.MethodInvite, Request: target, From: &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "alice", Host: "a.example"}}}
		if given {
			for i := len(c.hops) - 1; i >= 0; i-- {
				inv.Route = &sip.Addr{Uri: c.hops[i].uri(), Next: inv.Route}
			}
		} else if len(c.hops) > 0 {
			for i, h := range c.hops {
				h.rewrite, h.rport = "10.0.0.2", uport
				if i+1 < len(c.hops) {
					h.rewrite, h.rport = c.hops[i+1].k.ip, c.hops[i+1].k.port
				}
			}
			inv.Request = &sip.URI{Scheme: "sip", User: "bob", Host: c.hops[0].k.ip, Port: c.hops[0].k.port}
			target = &sip.URI{Scheme: "sip", User: "bob", Host: "10.0.0.2", Port: uport}
		}
		inv.Subject, inv.XHeader = "way", &sip.XHeader{Name: "X-One", Value: []byte("1"), Next: &sip.XHeader{Name: "X-Two", Value: []byte("two, 2")}}
		inv.Payload = &sip.MiscPayload{T: "text/plain", D: []byte("hello\r\n\r\nthere")}
		// The near end.
		var dl *caller
		var near *node
		take := func(m *sip.Msg) { c.near = append(c.near, m) }
		if call {
			if asks {
				inv.Via = &sip.Via{Host: "10.0.0.1", Param: &sip.Param{Name: "rport"}}
			}
			dl = s.call(inv)
		} else {
			near = s.node("near", "10.0.0.1", 5068)
			near.on = take
			if asks {
				near.tp.Via.Param = &sip.Param{Name: "rport"}
			}
			to := &sip.Addr{Uri: inv.Request.Copy()}
			r := dialog.NewRequest(near.tp, sip.MethodInvite, to, inv.From)
			r.Route, r.Subject, r.XHeader, r.Payload = inv.Route, inv.Subject, inv.XHeader, inv.Payload
			inv = r
			sent := *inv // sending rewrites for a strict router
			near.send(&sent)
		}
		arrived := func(what string, list *[]*sip.Msg) *sip.Msg {
			s.run(s.now()+300*time.Millisecond, func() bool { return len(*list) > 0 })
			if len(*list) != 1 {
				c.fail("does not arrive", "%s: %d arrived", what, len(*list))
			}
			m := (*list)[0]
			*list = nil
			if !m.IsResponse() && what != "INVITE" {
				n := 0
				for v := m.Via.Next; v != nil; v = v.Next {
					n++
				}
				if m.MaxForwards != 69-n && !(call && (m.Method == sip.MethodAck || m.Method == sip.MethodCancel)) {
					c.fail("hops counted wrongly", "%s: %d after %d proxies", what, m.MaxForwards, n)
				}
			}
			return m
		}
		m := arrived("INVITE", &c.got)
		c.check("INVITE", c.names(false))
		if m.Request.String() != target.String() || m.Route != nil {
			c.fail("arrives for another target", "%s, should be %s; Route %s", m.Request, target, m.Route)
		}
		if m.Subject != inv.Subject || m.XHeader.String() != inv.XHeader.String() || !same(m.Payload, inv.Payload) {
			c.fail("changed on the way", "%s", m)
		}
		if !call && (m.CallID != inv.CallID || m.CSeq != inv.CSeq || m.From.String() != inv.From.String() || m.To.String() != inv.To.String() || hostPort(m.Contact.Uri) != "10.0.0.1:5068") {
			c.fail("changed on the way", "%s", m)
		}
		if m.MaxForwards != 69-len(c.hops) {
			c.fail("hops counted wrongly", "%d after %d proxies", m.MaxForwards, len(c.hops))
		}
		if !reachable(m.Contact) {
			c.fail("cannot be reached", "%s", m.Contact)
		}
		n := 0
		for v := m.Via; v != nil; v = v.Next {
			n++
		}
		if n != 1+len(c.hops) {
			c.fail("Vias", "%d after %d proxies\n%s", n, len(c.hops), m)
		}
		// Ringing and the answer.
		response := func(req *sip.Msg, status int) *sip.Msg {
			r := dialog.NewResponse(req, status)
			if tagOf(r.To) == "" {
				r.To = r.To.Copy()
				r.To.Param = &sip.Param{Name: "tag", Value: "fartag", Next: r.To.Param}
			}
			r.Contact = far.tp.Contact
			return r
		}
		far.send(response(m, 180))
		if call {
			s.run(s.now()+300*time.Millisecond, func() bool { return dl.said(dialog.Ringing) > 0 })
			if dl.said(dialog.Ringing) != 1 {
				c.fail("response does not come back", "180")
			}
		} else {
			r := arrived("180", &c.near)
			if !dialog.ResponseMatch(inv, r) || r.Via.Next != nil {
				c.fail("response comes back changed", "%s", r)
			}
		}
		over := func(what string) {
			if !call {
				return
			}
			s.run(s.now()+300*time.Millisecond, func() bool { return dl.closed })
			if !dl.closed || len(dl.errs) > 0 {
				c.fail("response does not come back", "%s: %v %v", what, dl.states, dl.errs)
			}
		}
		if end == "cancelled" {
			if call {
				dl.hangup()
			} else {
				near.send(dialog.NewCancel(inv))
			}
			q := arrived("CANCEL", &c.got)
			c.check("CANCEL", c.names(false))
			if q.Request.String() != target.String() || q.Route != nil {
				c.fail("arrives for another target", "%s; Route %s", q.Request, q.Route)
			}
			if q.CallID != m.CallID || q.CSeq != m.CSeq || q.Via.Last().Param.Get("branch").Value != m.Via.Last().Param.Get("branch").Value {
				c.fail("CANCEL does not match", "%s", q)
			}
			far.send(dialog.NewResponse(q, 200))
			if !call {
				r := arrived("200 for CANCEL", &c.near)
				if r.CSeqMethod != "CANCEL" || r.CSeq != inv.CSeq || r.Via.Next != nil {
					c.fail("response comes back changed", "%s", r)
				}
			}
		}
		if end == "cancelled" || end == "declined" {
			status := 487
			if end == "declined" {
				status = 603
			}
			no := response(m, status)
			far.send(no)
			if !call {
				r := arrived("decline", &c.near)
				if !dialog.ResponseMatch(inv, r) || r.Via.Next != nil || r.Status != status {
					c.fail("response comes back changed", "%s", r)
				}
				near.send(dialog.NewAck(r, inv))
			}
			a := arrived("ACK", &c.got)
			c.check("ACK", c.names(false))
			if a.Request.String() != target.String() || a.Route != nil {
				c.fail("arrives for another target", "%s; Route %s", a.Request, a.Route)
			}
			if !dialog.AckMatch(m, a) {
				c.fail("ACK does not match", "%s", a)
			}
			if call {
				s.run(s.now()+300*time.Millisecond, func() bool { return dl.closed })
				if !dl.closed || dl.said(dialog.Answered) > 0 || len(dl.errs) > 1 || end == "declined" && len(dl.errs) != 1 {
					c.fail("response does not come back", "%d: %v %v", status, dl.states, dl.errs)
				}
			}
			x.Cover("path", c.kind)
			x.Checked(1)
			return
		}
		answer := response(m, 200)
		far.send(answer)
		var final *sip.Msg
		if call {
			s.run(s.now()+300*time.Millisecond, func() bool { return len(c.got) > 0 })
		} else {
			final = arrived("200", &c.near)
			if !dialog.ResponseMatch(inv, final) || final.Via.Next != nil {
				c.fail("response comes back changed", "%s", final)
			}
			var rr []string
			for a := final.RecordRoute; a != nil; a = a.Next {
				rr = append(rr, hostPort(a.Uri))
			}
			var want []string
			for i := len(c.hops) - 1; i >= 0; i-- {
				if c.hops[i].record {
					want = append(want, hostPort(c.hops[i].uri()))
				}
			}
			if fmt.Sprint(rr) != fmt.Sprint(want) {
				c.fail("Record-Route", "%v, should be %v", rr, want)
			}
			near.send(dialog.NewAck(final, inv))
		}
		a := arrived("ACK", &c.got)
		way := c.names(true)
		if call && !first {
			// A call has only the socket it called with, for its ACKs.
			way = append([]string{c.hops[0].k.name}, way...)
		}
		c.check("ACK", way)
		if a.Request.String() != far.tp.Contact.Uri.String() || a.Route != nil {
			c.fail("arrives for another target", "%s; Route %s", a.Request, a.Route)
		}
		if !dialog.AckMatch(m, a) {
			c.fail("ACK does not match", "%s", a)
		}
		// A request from the far end, along the way back.
		re := dialog.NewRequest(far.tp, sip.MethodOptions, &sip.Addr{Uri: m.Contact.Uri}, nil)
		re.From, re.To, re.CallID, re.CSeq = answer.To, m.From, m.CallID, 900
		re.Route = m.RecordRoute.Copy()
		// Whoever is next to the translator has to know the caller's outer
		// address: left to those who do.
		if !nat {
			far.send(re)
			if call {
				rsp := arrived("200 for OPTIONS", &c.got)
				if rsp.Status != 200 || !dialog.ResponseMatch(re, rsp) {
					c.fail("response comes back changed", "%s", rsp)
				}
			} else {
				q := arrived("OPTIONS", &c.near)
				if q.Request.String() != m.Contact.Uri.String() || q.Route != nil {
					c.fail("arrives for another target", "%s; Route %s", q.Request, q.Route)
				}
				near.send(dialog.NewResponse(q, 200))
				rsp := arrived("200 for OPTIONS", &c.got)
				if rsp.Status != 200 || !dialog.ResponseMatch(re, rsp) {
					c.fail("response comes back changed", "%s", rsp)
				}
			}
			c.check("OPTIONS", reversed(c.names(true)))
		}
		// And the end, along the way.
		if end == "far hangs up" && !nat {
			bye := dialog.NewRequest(far.tp, sip.MethodBye, &sip.Addr{Uri: m.Contact.Uri}, nil)
			bye.From, bye.To, bye.CallID, bye.CSeq = answer.To, m.From, m.CallID, 901
			bye.Route = m.RecordRoute.Copy()
			far.send(bye)
			if !call {
				q := arrived("BYE", &c.near)
				if q.Request.String() != m.Contact.Uri.String() || q.Route != nil {
					c.fail("arrives for another target", "%s; Route %s", q.Request, q.Route)
				}
				near.send(dialog.NewResponse(q, 200))
			}
			rsp := arrived("200 for BYE", &c.got)
			if rsp.Status != 200 || !dialog.ResponseMatch(bye, rsp) || rsp.Via.Next != nil {
				c.fail("response comes back changed", "%s", rsp)
			}
			c.check("BYE", reversed(c.names(true)))
			over("BYE")
			x.Cover("path", c.kind)
			x.Checked(1)
			return
		}
		lseq := inv.CSeq
		if call {
			dl.hangup()
		} else {
			near.send(dialog.NewBye(inv, final, &lseq))
		}
		b := arrived("BYE", &c.got)
		c.check("BYE", c.names(true))
		if b.Request.String() != far.tp.Contact.Uri.String() || b.Route != nil {
			c.fail("arrives for another target", "%s; Route %s", b.Request, b.Route)
		}
		far.send(dialog.NewResponse(b, 200))
		if call {
			over("200 for BYE")
		} else {
			r := arrived("200 for BYE", &c.near)
			if r.CSeqMethod != "BYE" || r.Via.Next != nil {
				c.fail("response comes back changed", "%s", r)
			}
		}
		x.Cover("path", c.kind)
		x.Checked(1)
	})
}

// same says whether two bodies are.
func same(a, b sip.Payload) bool {
	return a != nil && a.ContentType() == b.ContentType() && bytes.Equal(a.Data(), b.Data())
}
