package dlgh

// The reference of a call: what it writes and reports for every event, written
// from the properties' text, with its own clock.

import (
	"net"
	"strconv"
	"strings"
	"time"
)

// conf is the world and the application of one execution.
type conf struct {
	interval  time.Duration
	max       int
	loose     bool
	listenBad bool                // the inbound socket cannot be bound
	style     int                 // how the application fills in its INVITE
	host      string              // whom it calls
	port      uint16              //
	srv       map[string][]string // advertised targets, host:port
	hosts     map[string]string   // name -> IP
	bad       map[string]bool     // addresses that cannot be dialled
	cseq0     bool                // the first CSeq drawn is 0
	wfault    []string            // fate of the first writes
	tags      bool                // timestamps and tracing are on
}

// exp is a datagram the call has to send.
type exp struct {
	kind    string // INVITE BYE ACK CANCEL RESP
	addr    string // where it has to go
	fresh   bool   // new transaction: branch not used before
	again   bool   // retransmission: same text identity
	uri     string
	route   []string
	to      string
	cseq    int
	status  int
	in      *in // the message it answers
	failure bool
}

// in is a message from the other side, described.
type in struct {
	name    string
	resp    bool
	status  int
	method  string // of the CSeq (responses) or the request
	cseq    int
	match   bool // response: last Via is our request's
	call    bool // Call-ID is the call's
	version bool // 2.0
	hops    int  // Max-Forwards of a request
	contact string
	rr      []string
	to      string // To as text
	sdp     string // "", "-" (no audio) or "host:port"
	text    string
}

type mdl struct {
	c         *conf
	now       time.Time
	over      bool
	unsettled bool // the properties say nothing from here on
	state     int
	answered  bool
	cancelled bool
	bye       bool
	uri       string   // request URI of the INVITE as it has to leave
	route     []string // Route of the INVITE as it has to leave
	ruri      string   // same, before strict routing
	rroute    []string
	byeURI    string
	byeRoute  []string
	routes    []string
	addr      string
	dest      string
	reqDL     time.Time
	resends   int
	target    string
	rset      []string
	remoteTo  string
	inviteTo  string // To of the INVITE, learned
	cseq      int    // of the INVITE, learned
	rseq      int
	resp      *in
	respDL    time.Time
	respN     int
	gen       int      // transactions begun
	wfault    []string // fate of the next writes: "" fine, refused, broken
	out       []exp
	rep       []string
}

func (m *mdl) clone() *mdl {
	n := *m
	n.out = append([]exp(nil), m.out...)
	n.rep = append([]string(nil), m.rep...)
	n.wfault = append([]string(nil), m.wfault...)
	return &n
}

func (m *mdl) report(s string) { m.rep = append(m.rep, s) }

func (m *mdl) end(s string) bool {
	if s != "" {
		m.report(s)
	}
	m.report("closed")
	m.over = true
	return false
}

func (m *mdl) to(state int) { m.state = state; m.report("state " + strconv.Itoa(state)) }

// hostPort reads the host and port of a plain sip: URI.
func hostPort(uri string) (string, uint16) {
	s := strings.TrimPrefix(strings.Trim(uri, "<>"), "sip:")
	if i := strings.IndexAny(s, ";?"); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, "@"); i >= 0 {
		s = s[i+1:]
	}
	if h, p, err := net.SplitHostPort(s); err == nil {
		n, _ := strconv.Atoi(p)
		return h, uint16(n)
	}
	return strings.Trim(s, "[]"), 0
}

func unangle(s string) string { return strings.Trim(s, "<>") }

func loose(entry string) bool { return strings.Contains(entry, ";lr") }

// nextHop applies the routing rules to a request URI and Route.
func nextHop(uri string, route []string) (host string, port uint16, uri2 string, route2 []string) {
	if len(route) == 0 {
		host, port = hostPort(uri)
		return host, port, uri, nil
	}
	if loose(route[0]) {
		host, port = hostPort(route[0])
		return host, port, uri, route
	}
	uri2 = unangle(route[0])
	route2 = append(append([]string{}, route[1:]...), "<"+uri+">")
	host, port = hostPort(uri2)
	return
}

// addresses resolves a destination.
func (c *conf) addresses(host string, port uint16, srv bool) ([]string, bool) {
	p := port
	if p == 0 {
		p = 5060
	}
	ps := strconv.Itoa(int(p))
	if net.ParseIP(host) != nil {
		return []string{net.JoinHostPort(host, ps)}, true
	}
	if port == 0 && srv && len(c.srv[host]) > 0 {
		return c.srv[host], true
	}
	if ip := c.hosts[host]; ip != "" {
		return []string{net.JoinHostPort(ip, ps)}, true
	}
	return nil, false
}

// dialled is the ip:port that dialling a yields.
func (c *conf) dialled(a string) (string, bool) {
	if c.bad[a] || c.listenBad && c.loose {
		return "", false
	}
	h, p, _ := net.SplitHostPort(a)
	if net.ParseIP(h) == nil {
		if h = c.hosts[h]; h == "" {
			return "", false
		}
	}
	return net.JoinHostPort(h, p), true
}

func (m *mdl) start(uri string, route []string) bool {
	m.ruri, m.rroute = uri, route
	return m.place()
}

// place sends the INVITE to its destination.
func (m *mdl) place() bool {
	host, port, u, r := nextHop(m.ruri, m.rroute)
	m.uri, m.route = u, r
	return m.contact(host, port)
}

func (m *mdl) contact(host string, port uint16) bool {
	as, ok := m.c.addresses(host, port, m.state < 2)
	if !ok {
		return m.end("err resolve")
	}
	m.routes, m.dest = as, host
	return m.next()
}

func (m *mdl) next() bool {
	for len(m.routes) > 0 {
		a := m.routes[0]
		m.routes = m.routes[1:]
		d, ok := m.c.dialled(a)
		if !ok {
			continue
		}
		m.addr = d
		if m.state < 2 {
			m.rseq = 0
			m.answered = false
		}
		m.resends = 0
		m.reqDL = m.now.Add(m.c.interval)
		m.gen++
		return m.write(m.request(true))
	}
	return m.end("err contact " + m.dest)
}

func (m *mdl) request(fresh bool) exp {
	if m.bye {
		return exp{kind: "BYE", addr: m.addr, fresh: fresh, again: !fresh, uri: m.byeURI, route: m.byeRoute, to: m.remoteTo, cseq: m.cseq + 1}
	}
	return exp{kind: "INVITE", addr: m.addr, fresh: fresh, again: !fresh, uri: m.uri, route: m.route, cseq: m.cseq}
}

func (m *mdl) write(e exp) bool {
	m.out = append(m.out, e)
	f := ""
	if len(m.wfault) > 0 {
		f, m.wfault = m.wfault[0], m.wfault[1:]
	}
	switch {
	case f == "":
		return true
	case f == "refused" && (e.kind == "INVITE" || e.kind == "BYE"):
		return m.next()
	}
	return m.end("err write " + f)
}

func (m *mdl) answer(i *in, status int) bool {
	return m.write(exp{kind: "RESP", addr: m.addr, status: status, in: i})
}

func (m *mdl) media(i *in) {
	if i.sdp != "" && i.sdp != "-" {
		m.report("peer " + i.sdp)
	}
}

// message is the arrival of a message.
func (m *mdl) message(i *in) bool {
	if m.over {
		return false
	}
	if i.resp || i.method == "ACK" {
		if !i.call {
			return true
		}
		if !i.version {
			return m.end("err version")
		}
	} else {
		if !i.version {
			if !i.call {
				m.unsettled = true
			}
			if !m.answer(i, 505) {
				return false
			}
			return m.end("err version")
		}
		if !i.call {
			return m.answer(i, 481)
		}
	}
	if i.resp {
		return m.response(i)
	}
	return m.incoming(i)
}

func (m *mdl) response(i *in) bool {
	method, cseq := "INVITE", m.cseq
	if m.bye {
		method, cseq = "BYE", m.cseq+1
	}
	if !i.match || i.method != method || i.cseq != cseq {
		return true
	}
	if !m.bye && i.status >= 200 {
		a := exp{kind: "ACK", addr: m.addr, uri: m.uri, route: m.route, to: i.to, cseq: m.cseq, failure: true, in: i}
		if i.status < 300 {
			if i.contact == "" {
				return m.end("err contactless")
			}
			a.uri, a.failure = i.contact, false
			a.route = reversed(i.rr)
			if h, p, u, r := nextHop(i.contact, a.route); len(r) > 0 && net.JoinHostPort(h, strconv.Itoa(int(or5060(p)))) == m.addr {
				a.uri, a.route = u, r // we talk to a strict router
			}
		}
		if !m.write(a) {
			return false
		}
	}
	if i.status >= 200 && i.status != 503 {
		m.routes = nil
	}
	m.reqDL = time.Time{}
	if m.state >= 2 && (i.status < 200 || !m.bye && i.status >= 300) {
		return true
	}
	if i.status < 300 && !m.answered {
		m.media(i)
	}
	switch s := i.status; {
	case s == 100:
		m.to(0)
	case s == 180 || s == 183:
		m.to(1)
	case s < 200:
	case s < 300 && m.bye:
		m.to(3)
		return m.end("")
	case s < 300:
		if !m.answered {
			m.answered = true
			m.target, m.rset, m.remoteTo = i.contact, reversed(i.rr), i.to
			m.to(2)
			if m.cancelled {
				return m.hangup()
			}
		}
	case s == 503 && !m.bye && len(m.routes) > 0:
		return m.next()
	case (s == 301 || s == 302) && !m.bye && i.contact != "" && !m.cancelled:
		m.ruri, m.rroute = i.contact, nil
		return m.place()
	default:
		return m.end("err resp " + strconv.Itoa(s))
	}
	return true
}

func reversed(a []string) (r []string) {
	for i := len(a) - 1; i >= 0; i-- {
		r = append(r, a[i])
	}
	return
}

func (m *mdl) incoming(i *in) bool {
	if i.method == "ACK" {
		if m.resp != nil && m.resp.cseq == i.cseq {
			m.resp, m.respDL = nil, time.Time{}
		}
		return true
	}
	if i.hops <= 0 {
		if !m.answer(i, 483) {
			return false
		}
		return m.end("err loop")
	}
	if m.rseq != 0 && i.cseq < m.rseq {
		return m.answer(i, 500)
	}
	m.rseq = i.cseq
	switch i.method {
	case "BYE":
		if !m.answer(i, 200) {
			return false
		}
		m.to(3)
		return m.end("")
	case "OPTIONS":
		return m.answer(i, 200)
	case "INVITE":
		if m.answered && i.contact != "" {
			m.target = i.contact
		}
		m.media(i)
		m.resp, m.respN = i, 0
		m.respDL = m.now.Add(m.c.interval)
		return m.answer(i, 200)
	}
	return m.answer(i, 405)
}

func (m *mdl) hangup() bool {
	if m.over {
		return false
	}
	if m.state < 2 {
		m.cancelled = true
		m.routes = nil
		return m.write(exp{kind: "CANCEL", addr: m.addr, uri: m.uri, route: m.route, cseq: m.cseq})
	}
	if m.bye {
		return true
	}
	m.bye = true
	host, port, u, r := nextHop(m.target, m.rset)
	m.byeURI, m.byeRoute = u, r
	return m.contact(host, port)
}

// readError is the socket failing while reading.
func (m *mdl) readError(kind string, inbound bool) bool {
	if m.over {
		return false
	}
	if kind == "refused" && !inbound {
		return m.next()
	}
	return m.end("err read " + kind)
}

// deadline is the next moment something happens by itself.
func (m *mdl) deadline() time.Time {
	switch {
	case m.over:
		return time.Time{}
	case m.reqDL.IsZero():
		return m.respDL
	case m.respDL.IsZero() || m.reqDL.Before(m.respDL):
		return m.reqDL
	}
	return m.respDL
}

// advance lets time pass up to t.
func (m *mdl) advance(t time.Time) {
	for d := m.deadline(); !d.IsZero() && !d.After(t); d = m.deadline() {
		m.now = d
		if m.reqDL.Equal(m.respDL) {
			m.unsettled = true // either may come first
		}
		m.fire(d.Equal(m.reqDL))
	}
	m.now = t
}

// fire is a timer going off: the request's or the response's.
func (m *mdl) fire(request bool) {
	if request {
		if m.resends < m.c.max {
			m.resends++
			m.reqDL = m.now.Add(m.c.interval)
			m.write(m.request(false))
		} else {
			m.next()
		}
		return
	}
	switch {
	case m.respN < m.c.max:
		m.respN++
		m.respDL = m.now.Add(m.c.interval)
		m.answer(m.resp, 200)
	case len(m.routes) > 0:
		m.unsettled = true
		m.respDL = time.Time{}
	default:
		m.next() // the limit is reached: the call fails
	}
}

func or5060(p uint16) uint16 {
	if p == 0 {
		return 5060
	}
	return p
}
