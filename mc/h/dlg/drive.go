package dlgh

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
	"verif/mc/shim/vrand"
	"verif/mc/shim/vsel"
)

func init() { log.SetOutput(io.Discard) }

// entropy is crypto/rand made repeatable; every read differs from all others.
type entropy struct {
	n     uint64
	zeros int // so many reads yield zero bytes first, but only short ones
}

func (e *entropy) Read(p []byte) (int, error) {
	e.n++
	if e.zeros > 0 && len(p) <= 2 {
		e.zeros--
		clear(p)
		return len(p), nil
	}
	var b [8]byte
	for i := range p {
		if i%8 == 0 {
			binary.LittleEndian.PutUint64(b[:], (e.n+uint64(i)<<20)*0x9e3779b97f4a7c15)
		}
		p[i] = b[i%8]
	}
	return len(p), nil
}

func setFlag(name, value string) {
	if f := flag.Lookup(name); f != nil && f.Value.String() != value {
		f.Value.Set(value)
	}
}

// fail is a difference between the call and the reference.
type fail struct {
	props  string // properties it breaks, e.g. "C23 C26"
	key    string
	detail string
}

// drv drives one call.
type drv struct {
	x    *mc.X
	prop string
	c    *conf
	m    *mdl
	w    *vnet.World
	dl   *dialog.Dialog

	mu      sync.Mutex
	rep     []string // what the application was told
	errs    []error
	resps   []*sip.Msg
	gate    chan bool // nil: the application reads at once
	nrep    int
	nops    int
	invite  *sip.Msg // the INVITE as last sent
	first   *sip.Msg
	cur     *sip.Msg // the current request as last sent
	conn    *vnet.UDPConn
	branch  map[string]bool
	base    string // identity of the INVITE
	failure *fail  // a difference, if possible one that breaks prop
	fails   int    // differences so far
	start   time.Time
	ids     int
	texts   []string // responses that arrived
	rcseq   int
	lastRe  int // CSeq of the last re-INVITE
	wfault  []string
	inbound bool // messages arrive at the inbound socket
	frozen  bool // the application does not read
	grab    bool // only compose the next message
	grabbed *in
}

var apptxt = map[int]func(c *conf) *sip.Msg{}

func (c *conf) target() *sip.URI {
	return &sip.URI{Scheme: "sip", User: "bob", Host: c.host, Port: c.port}
}

func mkAddr(user, host string, port uint16) *sip.Addr {
	return &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: user, Host: host, Port: port}}
}

func lrAddr(host string, port uint16) *sip.Addr {
	a := mkAddr("", host, port)
	a.Uri.Param = &sip.URIParam{Name: "lr"}
	return a
}

func mkSDP() *sdp.SDP {
	return &sdp.SDP{Session: "call", Time: "0 0", Audio: &sdp.Media{Proto: "RTP/AVP", Port: 40404, Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}}}
}

// app makes the application's INVITE.
func (c *conf) app() *sip.Msg {
	m := &sip.Msg{Method: "INVITE", Request: c.target()}
	switch c.style {
	case 0: // as little as possible
	case 1: // everything
		m.Via = &sip.Via{Host: "nat.example", Port: 6, Param: &sip.Param{Name: "rport", Next: &sip.Param{Name: "branch", Value: "z9hG4bK-app"}}}
		m.Contact = mkAddr("alice", "nat.example", 7)
		m.Contact.Uri.Param = &sip.URIParam{Name: "transport", Value: "udp"}
		m.From = mkAddr("alice", "a.example", 0)
		m.From.Display = "Alice"
		m.From.Param = &sip.Param{Name: "tag", Value: "apptag"}
		m.To = mkAddr("robert", "b.example", 5080)
		m.CallID, m.CSeq, m.CSeqMethod, m.MaxForwards, m.UserAgent = "app-call-id", 4711, "INVITE", 9, "app/1"
		m.Subject = "hello"
		m.Payload = mkSDP()
		m.Payload.(*sdp.SDP).Addr = "198.51.100.7"
		m.Payload.(*sdp.SDP).Origin = sdp.Origin{User: "u", ID: "77", Version: "3", Addr: "198.51.100.8"}
		m.Authorization, m.ProxyAuthorization = "Digest a", "Digest b"
		m.XHeader = &sip.XHeader{Name: "X-App", Value: []byte("v")}
	case 2: // loose route, blank SDP
		m.From = mkAddr("alice", "a.example", 0)
		m.Route = lrAddr("10.0.0.9", 5099)
		m.Route.Next = lrAddr("10.0.0.10", 0)
		m.Payload = mkSDP()
	case 3: // strict route
		m.From = mkAddr("alice", "a.example", 0)
		m.Route = mkAddr("", "10.0.0.9", 5099)
		m.Route.Next = lrAddr("10.0.0.10", 0)
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte("hi")}
		m.MaxForwards = 2
	case 4: // contact and SDP partly given
		m.Contact = mkAddr("", "c.example", 0)
		m.From = mkAddr("alice", "a.example", 0)
		m.Payload = mkSDP()
		m.Payload.(*sdp.SDP).Origin.Addr = "198.51.100.8"
	}
	return m
}

func addrTexts(a *sip.Addr) (r []string) {
	for ; a != nil; a = a.Next {
		b := *a
		b.Next = nil
		r = append(r, b.String())
	}
	return
}

func errOf(f string) error {
	if f == "refused" {
		return syscall.ECONNREFUSED
	}
	return syscall.ENETDOWN
}

// run executes body with a fresh call in world c.
func run(x *mc.X, prop string, c *conf, body func(d *drv)) {
	if c.interval == 0 {
		c.interval = 400 * time.Millisecond
	}
	setFlag("resendInterval", strconv.Itoa(int(c.interval/time.Millisecond)))
	setFlag("maxResends", strconv.Itoa(c.max))
	setFlag("looseSignalling", strconv.FormatBool(c.loose))
	setFlag("timestampTagging", strconv.FormatBool(c.tags))
	setFlag("trace", strconv.FormatBool(c.tags))
	vsel.Rank = nil
	w := vnet.NewWorld()
	vnet.Cur = w
	n := uint64(1)
	vrand.Use(func() uint64 { n += 0x9e3779b97f4a7c15; return n })
	ent := &entropy{}
	if c.cseq0 {
		ent.zeros = 1
	}
	rand.Reader = ent
	d := &drv{x: x, prop: prop, c: c, w: w, branch: map[string]bool{}, rcseq: 100}
	w.SRV = func(service, proto, name string) (rs []*net.SRV, err error) {
		if service != "sip" || proto != "udp" {
			return nil, errors.New("no such service")
		}
		for _, t := range c.srv[name] {
			h, p, _ := net.SplitHostPort(t)
			port, _ := strconv.Atoi(p)
			rs = append(rs, &net.SRV{Target: h, Port: uint16(port)})
		}
		if rs == nil {
			err = &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
		}
		return
	}
	w.Host = func(name string) ([]net.IP, error) {
		if ip := c.hosts[name]; ip != "" {
			return []net.IP{net.ParseIP(ip)}, nil
		}
		return nil, &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
	}
	w.DialErr = func(addr string) error {
		if c.bad[addr] {
			return syscall.ENETUNREACH
		}
		return nil
	}
	w.ListenErr = func(addr string) error {
		if c.listenBad {
			return syscall.EACCES
		}
		return nil
	}
	w.WriteErr = func(k *vnet.UDPConn, p vnet.Packet) error {
		f := ""
		if len(d.wfault) > 0 {
			f, d.wfault = d.wfault[0], d.wfault[1:]
		}
		switch f {
		case "refused":
			return k.Refused("write")
		case "broken":
			return k.Broken("write")
		}
		return nil
	}
	leaked := x.Bubble(func() {
		x.OnCut(func() {
			d.release()
			d.abort()
		})
		d.start = time.Now()
		d.m = &mdl{c: c, now: d.start, state: 0}
		for _, f := range c.wfault {
			d.fault(f)
		}
		app := c.app()
		d.first = c.app()
		dl, err := dialog.NewDialog(app)
		if err != nil || dl == nil {
			x.Violate("no call", "%v", err)
		}
		d.dl = dl
		go d.app()
		d.m.start(app0(c), addrTexts(d.first.Route))
		d.settle("place")
		if d.failure == nil {
			body(d)
		}
		d.finish()
	})
	if d.failure != nil && strings.Contains(d.failure.props, prop) {
		x.Violate(d.failure.key, "%s", d.failure.detail)
	}
	if prop == "C22" {
		if leaked {
			x.Violate("tasks left", "a task of the call was still blocked after it ended\n%s", strings.Join(d.rep, "\n"))
		}
		if o := w.Open(); len(o) > 0 {
			x.Violate("sockets left", "%d of %d sockets still open", len(o), len(w.All()))
		}
	}
	d.x.Checked(1)
}

func app0(c *conf) string { return c.target().String() }

// app is the application: it reads everything the call says.
func (d *drv) app() {
	es, ss, ps := d.dl.OnErr, d.dl.OnState, d.dl.OnPeer
	say := func(s string) {
		d.mu.Lock()
		d.rep = append(d.rep, s)
		d.mu.Unlock()
	}
	for es != nil || ss != nil || ps != nil {
		d.mu.Lock()
		g := d.gate
		d.mu.Unlock()
		if g != nil {
			<-g
		}
		select {
		case e, ok := <-es:
			if !ok {
				es = nil
				continue
			}
			d.mu.Lock()
			d.errs = append(d.errs, e)
			d.mu.Unlock()
			say(d.nameErr(e))
		case s, ok := <-ss:
			if !ok {
				ss = nil
				continue
			}
			say("state " + strconv.Itoa(s))
		case p, ok := <-ps:
			if !ok {
				ps = nil
				continue
			}
			if p == nil {
				say("peer nil")
			} else {
				say("peer " + p.String())
			}
		}
	}
	say("closed")
}

func (d *drv) nameErr(e error) string {
	var re *sip.ResponseError
	switch {
	case e == nil:
		return "err nil"
	case errors.As(e, &re):
		if re.Msg == nil {
			return "err resp without response"
		}
		_ = e.Error()
		if !d.genuine(re.Msg) {
			return "err resp altered " + strconv.Itoa(re.Msg.Status)
		}
		return "err resp " + strconv.Itoa(re.Msg.Status)
	}
	s := e.Error()
	if s == "" {
		return "err blank"
	}
	for _, k := range []struct {
		e error
		n string
	}{{syscall.ECONNREFUSED, "refused"}, {syscall.ENETDOWN, "broken"}} {
		if errors.Is(e, k.e) {
			var oe *net.OpError
			if errors.As(e, &oe) {
				return "err " + oe.Op + " " + k.n
			}
			return "err " + k.n
		}
	}
	return "err other " + s
}

// genuine tells whether m is a response the other side sent.
func (d *drv) genuine(m *sip.Msg) bool {
	dump := func(m *sip.Msg) string {
		c := m.Copy()
		c.SourceAddr = nil
		if c.Via != nil {
			untag(c.Via)
		}
		return mc.Dump(c)
	}
	got := dump(m)
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := len(d.texts) - 1; i >= 0; i-- {
		if o, err := sip.ParseMsg([]byte(d.texts[i])); err == nil && o != nil && dump(o) == got {
			return true
		}
	}
	return false
}

// sameReport tells whether the application was told what the reference says.
func sameReport(got, want string) bool {
	if got == want {
		return true
	}
	o, ok := strings.CutPrefix(got, "err other ")
	if !ok || !strings.HasPrefix(want, "err ") {
		return false
	}
	switch f := strings.Fields(want); f[1] {
	case "contact":
		return strings.Contains(o, f[2])
	case "resolve", "version", "contactless", "loop":
		return true
	}
	return false
}

func reportProps(s string) string {
	switch {
	case strings.HasPrefix(s, "state 3"):
		return "C23 C26"
	case strings.HasPrefix(s, "state"):
		return "C23"
	case strings.HasPrefix(s, "peer"):
		return "C28"
	case strings.HasPrefix(s, "err contact"), strings.HasPrefix(s, "err other"):
		return "C23 C24"
	case s == "closed":
		return "C22 C23"
	}
	return "C23"
}

var kindProps = map[string]string{"INVITE": "C24", "BYE": "C26", "CANCEL": "C26", "ACK": "C25", "RESP": "C27", "?": "C22"}

func (d *drv) bad(props, key, f string, a ...any) {
	n := &fail{props, key, fmt.Sprintf(f, a...)}
	if d.failure == nil || !strings.Contains(d.failure.props, d.prop) && strings.Contains(props, d.prop) {
		d.failure = n
	}
	d.fails++
	if d.prop == "C22" {
		d.x.Logf("differs: %s: %s", key, n.detail)
	}
}

type sent struct {
	op   vnet.Op
	msg  *sip.Msg
	text string
	err  error
}

func (s sent) kind() string {
	switch {
	case s.err != nil:
		return "?"
	case s.msg.IsResponse():
		return "RESP"
	case kindProps[s.msg.Method] != "":
		return s.msg.Method
	}
	return "?"
}

// settle lets the call react and compares it with the reference.
func (d *drv) settle(event string) {
	synctest.Wait()
	d.x.Step(1)
	if d.failure != nil || d.frozen {
		return
	}
	d.match(event, d.m.out, d.m.rep)
	d.m.out, d.m.rep = nil, nil
}

func (d *drv) news() (ws []sent) {
	ops := d.w.Snapshot()
	for _, o := range ops[d.nops:] {
		if o.Kind != "write" {
			continue
		}
		s := sent{op: o, text: string(o.Pkt.Data)}
		s.msg, s.err = sip.ParseMsg(append([]byte(nil), o.Pkt.Data...))
		if s.err == nil && s.msg == nil {
			s.err = errors.New("empty datagram")
		}
		ws = append(ws, s)
	}
	d.nops = len(ops)
	return
}

func (d *drv) match(event string, out []exp, rep []string) {
	d.against(event, d.news(), d.told(), out, rep)
}

// told is what the application was told since the last time.
func (d *drv) told() []string {
	d.mu.Lock()
	got := append([]string(nil), d.rep[d.nrep:]...)
	d.nrep = len(d.rep)
	d.mu.Unlock()
	return got
}

// against compares what the call did with the reference; differences of one
// event are all told, so that each property learns of its own.
func (d *drv) against(event string, ws []sent, got []string, out []exp, rep []string) {
	d.datagrams(event, ws, out)
	d.reports(event, got, rep)
}

func (d *drv) datagrams(event string, ws []sent, out []exp) {
	for i := 0; i < len(ws) || i < len(out); i++ {
		switch {
		case i >= len(ws):
			e := out[i]
			d.bad(kindProps[e.kind]+evProps(event, e.kind, e.again), d.evKey(event)+": "+e.kind+" not sent", "%s not sent to %s after %s", e.kind, e.addr, event)
			return
		case i >= len(out):
			k := ws[i].kind()
			if k == "INVITE" && d.m.cancelled {
				k = "BYE"
				d.bad("C24 C26", d.evKey(event)+": placed again", "a call that was hung up is placed at %s after %s:\n%s", ws[i].op.Pkt.Addr, event, ws[i].text)
			}
			d.bad(kindProps[k]+evProps(event, k, false), d.evKey(event)+": unexpected "+k, "unexpected datagram to %s after %s:\n%s", ws[i].op.Pkt.Addr, event, ws[i].text)
			return
		}
		n := d.fails
		d.compare(event, ws[i], out[i])
		if d.fails != n {
			return
		}
	}
}

// reports compares what the application was told, channel by channel: what
// one event makes the call say on different channels has no order, except that
// nothing follows the hang-up.
func (d *drv) reports(event string, got, rep []string) {
	for i, g := range got {
		if g == "state 3" && i+1 < len(got) && got[i+1] != "closed" {
			d.bad("C23 "+reportProps(got[i+1])+evProps(event, "", false), d.evKey(event)+": told after the hang-up", "after %s the application was told %q", event, got)
			return
		}
	}
	for _, ch := range []string{"err", "state", "peer", "closed"} {
		if n := d.fails; true {
			d.channel(event, only(got, ch), only(rep, ch), got, rep)
			if d.fails != n {
				return
			}
		}
	}
}

func only(l []string, ch string) (r []string) {
	for _, s := range l {
		if strings.HasPrefix(s, ch) {
			r = append(r, s)
		}
	}
	return
}

func (d *drv) channel(event string, got, rep, allGot, allRep []string) {
	for i := 0; i < len(got) || i < len(rep); i++ {
		switch {
		case i >= len(got):
			d.bad(reportProps(rep[i])+evProps(event, "", false), d.evKey(event)+": not told "+word(rep[i]), "the application was not told %q after %s; it was told %q", rep[i], event, allGot)
			return
		case i >= len(rep):
			d.bad(reportProps(got[i])+evProps(event, "", false), d.evKey(event)+": told "+word(got[i]), "the application was told %q after %s: %q", got[i:], event, allGot)
			return
		case !sameReport(got[i], rep[i]):
			d.bad(reportProps(rep[i])+" "+reportProps(got[i])+evProps(event, "", false), d.evKey(event)+": told "+word(got[i])+" instead of "+word(rep[i]), "after %s the application was told %q, should be %q", event, allGot, allRep)
			return
		}
	}
}

func word(s string) string {
	f := strings.Fields(s)
	if len(f) > 1 && f[0] != "peer" {
		return f[0] + " " + f[1]
	}
	return f[0]
}

func (d *drv) evKey(event string) string { return strings.SplitN(event, ":", 2)[0] }

// evProps adds the property an event itself is about.
func evProps(event, kind string, again bool) string {
	switch {
	case strings.HasPrefix(event, "hangup"):
		return " C26"
	case strings.HasPrefix(event, "time"):
		if kind == "RESP" {
			return " C27"
		}
		return " C24"
	case strings.HasPrefix(event, "fault"), strings.HasPrefix(event, "503"), strings.HasPrefix(event, "30"), strings.HasPrefix(event, "place"):
		return " C24"
	case strings.HasPrefix(event, "request"):
		return " C27"
	}
	return ""
}

func branchOf(m *sip.Msg) string {
	if m.Via == nil {
		return ""
	}
	if p := m.Via.Param.Get("branch"); p != nil {
		return p.Value
	}
	return ""
}

func paramOf(a *sip.Addr, name string) string {
	if a == nil || a.Param.Get(name) == nil {
		return ""
	}
	return a.Param.Get(name).Value
}

func sameList(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }

// identity is the part of a request that must not change between addresses.
func identity(m *sip.Msg, route bool) string {
	c := m.Copy()
	c.MaxForwards = 0
	untag(c.Via)
	if p := c.Via.Param.Get("branch"); p != nil {
		p.Value = ""
	}
	c.Via.Port = 0
	if c.Contact != nil {
		c.Contact.Uri.Port = 0
	}
	if !route {
		c.Request, c.Route = nil, nil
	}
	return mc.Dump(c)
}

// compare checks a datagram against what had to be sent.
func (d *drv) compare(event string, s sent, e exp) {
	k := s.kind()
	props := kindProps[e.kind]
	if k != e.kind {
		d.bad(props+" "+kindProps[k]+evProps(event, e.kind, e.again), d.evKey(event)+": "+k+" instead of "+e.kind, "after %s sent to %s instead of %s to %s (%v):\n%s", event, s.op.Pkt.Addr, e.kind, e.addr, s.err, s.text)
		return
	}
	m := s.msg
	no := func(what, f string, a ...any) {
		p := props
		if e.again || e.kind == "BYE" && (what == "address" || what == "branch") {
			p += " C24"
		}
		d.bad(p, e.kind+": "+what, "after %s: %s\n%s", event, fmt.Sprintf(f, a...), s.text)
	}
	is := func(what, got, want string) {
		if got != want {
			no(what, "%s is %q, should be %q", what, got, want)
		}
	}
	if n := d.fails; true {
		is("address", s.op.Pkt.Addr.String(), e.addr)
		if d.fails != n {
			return
		}
	}
	if m.VersionMajor != 2 || m.VersionMinor != 0 {
		no("version", "SIP/%d.%d", m.VersionMajor, m.VersionMinor)
	}
	if e.kind == "RESP" {
		in, _ := sip.ParseMsg([]byte(e.in.text))
		is("status", strconv.Itoa(m.Status), strconv.Itoa(e.status))
		is("Via", viaText(m.Via), viaText(in.Via))
		is("From", m.From.String(), in.From.String())
		is("To", m.To.String(), in.To.String())
		is("Call-ID", m.CallID, in.CallID)
		is("CSeq", fmt.Sprint(m.CSeq, m.CSeqMethod), fmt.Sprint(in.CSeq, in.CSeqMethod))
		return
	}
	is("request URI", m.Request.String(), e.uri)
	is("Route", strings.Join(addrTexts(m.Route), "|"), strings.Join(e.route, "|"))
	port := s.op.Conn.LocalAddr().(*net.UDPAddr).Port
	if e.kind == "INVITE" || e.kind == "BYE" {
		if m.MaxForwards < 1 || m.MaxForwards > 255 {
			no("Max-Forwards", "%d", m.MaxForwards)
		}
		d.conn = s.op.Conn
		if m.Via == nil || m.Via.Next != nil {
			no("Via", "not exactly one Via")
			return
		}
		if int(m.Via.Port) != port && !(m.Via.Port == 0 && port == 5060) {
			no("Via port", "%d, should be %d", m.Via.Port, port)
		}
		b := branchOf(m)
		if !strings.HasPrefix(b, "z9hG4bK") {
			no("branch", "%q", b)
		}
		if e.fresh && d.branch[b] {
			no("branch", "%q was used before", b)
		}
		if e.again && b != branchOf(d.cur) {
			no("branch", "%q on retransmission, was %q", b, branchOf(d.cur))
		}
		d.branch[b] = true
		if paramOf(m.From, "tag") == "" {
			no("From", "no tag")
		}
		cp := port
		if d.c.loose {
			if k := d.csock(); k != d.conn {
				cp = k.LocalAddr().(*net.UDPAddr).Port
			}
		}
		if m.Contact == nil || int(m.Contact.Uri.Port) != cp {
			no("Contact", "%v, port should be %d", m.Contact, cp)
			return
		}
	}
	if e.kind == "INVITE" {
		if d.invite == nil {
			d.learn(m, s.op.Conn.LocalAddr().(*net.UDPAddr).IP.String(), s.text)
		} else if id := identity(m, false); id != d.base {
			no("identity", "differs from the first INVITE:\n%s\n--- first:\n%s", id, d.base)
		} else if e.again && identity(m, true) != identity(d.cur, true) {
			no("identity", "differs from the transmission before")
		}
		if e.again && m.MaxForwards != d.cur.MaxForwards {
			no("identity", "Max-Forwards changed from %d to %d", d.cur.MaxForwards, m.MaxForwards)
		}
		d.invite, d.cur = m, m
		return
	}
	is("Call-ID", m.CallID, d.invite.CallID)
	is("CSeq", strconv.Itoa(m.CSeq)+" "+m.CSeqMethod, strconv.Itoa(e.cseq)+" "+e.kind)
	is("From", m.From.String(), d.invite.From.String())
	switch e.kind {
	case "BYE":
		is("To", m.To.String(), e.to)
		if e.again {
			if identity(m, true) != identity(d.cur, true) {
				no("identity", "differs from the transmission before")
			}
		}
		d.cur = m
	case "CANCEL":
		is("To", m.To.String(), d.invite.To.String())
		v := *m.Via
		v.Next = nil
		is("Via", viaText(&v), viaText(d.invite.Via))
	case "ACK":
		is("To", m.To.String(), e.to)
		if e.failure {
			is("branch", branchOf(m), branchOf(d.invite))
		}
		if m.Via == nil {
			no("Via", "no Via")
		}
	}
}

// untag removes the timestamps from a Via.
func untag(v *sip.Via) {
	for p := &v.Param; *p != nil; {
		if (*p).Name == "usi" {
			*p = (*p).Next
		} else {
			p = &(*p).Next
		}
	}
}

// viaText is a Via list with default ports written out.
func viaText(v *sip.Via) string {
	c := v.Copy()
	for w := c; w != nil; w = w.Next {
		if w.Port == 0 {
			w.Port = 5060
		}
		untag(w)
	}
	return mc.Dump(c)
}

// learn checks the first INVITE and remembers what the call chose.
func (d *drv) learn(m *sip.Msg, own, text string) {
	w := d.first
	no := func(what, f string, a ...any) {
		d.bad("C24", "INVITE: "+what, "%s\n%s", fmt.Sprintf(f, a...), text)
	}
	if w.Via != nil && (m.Via.Host != w.Via.Host || (m.Via.Param.Get("rport") == nil) != (w.Via.Param.Get("rport") == nil)) {
		no("Via", "the application's Via was replaced")
	}
	if w.Via == nil && m.Via.Host != own {
		no("Via", "host %q", m.Via.Host)
	}
	wc := w.Contact
	if wc == nil {
		wc = mkAddr("", own, 0)
	}
	if m.Contact.Uri.Host != wc.Uri.Host || m.Contact.Uri.User != wc.Uri.User || m.Contact.Next != nil {
		no("Contact", "should be %s", wc)
	}
	if w.From != nil && (m.From.Uri.String() != w.From.Uri.String() || m.From.Display != w.From.Display || paramOf(w.From, "tag") != "" && paramOf(w.From, "tag") != paramOf(m.From, "tag")) {
		no("From", "should be %s", w.From)
	}
	to := d.c.target().String()
	if w.To != nil {
		to = w.To.Uri.String()
	}
	if m.To == nil || m.To.Uri.String() != to || m.To.Param != nil {
		no("To", "should be %s", to)
	}
	if w.CallID != "" && m.CallID != w.CallID || m.CallID == "" {
		no("Call-ID", "%q", m.CallID)
	}
	if w.CSeq != 0 && m.CSeq != w.CSeq || m.CSeqMethod != "INVITE" {
		no("CSeq", "%d %s", m.CSeq, m.CSeqMethod)
	}
	want := 70
	if w.MaxForwards > 0 {
		want = w.MaxForwards
	}
	if m.MaxForwards != want-1 {
		no("Max-Forwards", "%d", m.MaxForwards)
	}
	if w.UserAgent != "" && m.UserAgent != w.UserAgent {
		no("User-Agent", "%q", m.UserAgent)
	}
	if m.Subject != w.Subject || mc.Dump(m.XHeader) != mc.Dump(w.XHeader) || m.Authorization != w.Authorization || m.ProxyAuthorization != w.ProxyAuthorization {
		no("headers", "the application's headers changed")
	}
	// The body.
	switch p := w.Payload.(type) {
	case nil:
		if m.Payload != nil {
			no("body", "has a body")
		}
	case *sip.MiscPayload:
		if g, ok := m.Payload.(*sip.MiscPayload); !ok || g.T != p.T || !bytes.Equal(g.D, p.D) {
			no("body", "body changed")
		}
	case *sdp.SDP:
		g, ok := m.Payload.(*sdp.SDP)
		if !ok {
			d.bad("C28", "INVITE: no SDP", "%s", text)
			return
		}
		q := *p
		if q.Addr == "" {
			q.Addr = own
		}
		if q.Origin.Addr == "" {
			q.Origin.Addr = own
		}
		if q.Origin.ID == "" {
			q.Origin.ID = g.Origin.ID
			if _, err := strconv.ParseUint(g.Origin.ID, 10, 32); err != nil {
				d.bad("C28", "INVITE: SDP", "origin ID %q", g.Origin.ID)
			}
		}
		r, err := sdp.Parse(string(q.Data()))
		if err != nil || mc.Dump(r) != mc.Dump(g) {
			d.bad("C28", "INVITE: SDP", "should be\n%s\nis\n%s", q.Data(), g.Data())
		}
	}
	d.base = identity(m, false)
	d.m.inviteTo = m.To.String()
	d.m.cseq = m.CSeq
}

// finish ends the call if it did not end by itself, and sees it clean up.
func (d *drv) finish() {
	d.release()
	if d.failure == nil && !d.m.over && !d.m.unsettled {
		d.tick()
		d.readError("broken", false)
	}
	if d.failure != nil || d.m.unsettled {
		// Differs from the reference: just end it somehow.
		d.abort()
	}
	synctest.Wait()
	d.mu.Lock()
	n := len(d.rep)
	ended := n > 0 && d.rep[n-1] == "closed"
	d.mu.Unlock()
	if !ended && d.prop == "C22" {
		if d.failure != nil {
			d.x.Logf("earlier: %s", d.failure.detail)
		}
		d.x.Violate("channels not closed", "the call's socket failed, but its channels are not all closed; told %q", d.rep)
	}
	// Nothing may happen after the end.
	if d.failure == nil && !d.m.unsettled {
		time.Sleep(20 * d.c.interval)
		d.settle("end")
	} else {
		time.Sleep(20 * d.c.interval)
	}
}

// abort makes every socket fail.
func (d *drv) abort() {
	for i := 0; i < 3; i++ {
		for _, k := range d.w.Open() {
			k.Inject(vnet.Packet{Err: k.Broken("read")})
		}
		synctest.Wait()
	}
}

// freeze makes the application stop reading after at most one more report.
func (d *drv) freeze() {
	d.mu.Lock()
	d.gate = make(chan bool)
	d.mu.Unlock()
	d.frozen = true
}

// release makes the application read again.
func (d *drv) release() {
	if d.frozen {
		d.mu.Lock()
		g := d.gate
		d.gate = nil
		d.mu.Unlock()
		close(g)
		d.frozen = false
		synctest.Wait()
	}
}

// stop tells whether the execution is over for the driver.
func (d *drv) stop() bool { return d.failure != nil || d.m.unsettled || d.m.over }

// ---- events ----

const tickLen = time.Millisecond

func (d *drv) tick() { d.sleep(tickLen) }

func (d *drv) sleep(t time.Duration) {
	d.m.advance(d.m.now.Add(t))
	if d.m.unsettled {
		return
	}
	time.Sleep(t)
	d.settle("time")
}

// deadline lets time pass to just before, then to the next deadline.
func (d *drv) deadline() {
	t := d.m.deadline()
	if t.IsZero() {
		d.sleep(5 * d.c.interval)
		return
	}
	if dt := t.Sub(d.m.now); dt > tickLen {
		d.sleep(dt - tickLen)
	}
	if !d.stop() {
		d.sleep(t.Sub(d.m.now))
	}
}

func (d *drv) inject(text string) {
	a := d.conn.RemoteAddr().(*net.UDPAddr)
	k := d.conn
	if d.inbound {
		k = d.csock()
	}
	if strings.HasPrefix(text, "SIP/") {
		d.mu.Lock()
		d.texts = append(d.texts, text)
		d.mu.Unlock()
	}
	k.Inject(vnet.Packet{Data: []byte(text), Addr: a})
}

func (d *drv) readError(kind string, inbound bool) {
	k := d.conn
	if inbound {
		k = d.csock()
	}
	p := vnet.Packet{Err: k.Refused("read")}
	if kind == "broken" {
		p.Err = k.Broken("read")
	}
	k.Inject(p)
	d.m.readError(kind, inbound)
	d.settle("fault: read " + kind)
}

// csock is the inbound socket, if there is one.
func (d *drv) csock() *vnet.UDPConn {
	for _, o := range d.w.All() {
		if o.RemoteAddr() == nil {
			return o
		}
	}
	return d.conn
}

func (d *drv) fault(kind string) {
	d.wfault = append(d.wfault, kind)
	d.m.wfault = append(d.m.wfault, kind)
}

// writeOK lets the next write succeed before the faults that follow.
func (d *drv) writeOK() { d.fault("") }

func (d *drv) hangup() {
	select {
	case d.dl.Hangup <- true:
	default:
		d.bad("C22 C26", "hang-up not taken", "the hang-up channel is full")
		return
	}
	d.m.hangup()
	d.settle("hangup")
}

func (d *drv) arrive(i *in) {
	if d.grab {
		d.grabbed = i
		return
	}
	d.inject(i.text)
	d.m.message(i)
	ev := i.name
	if !i.resp {
		ev = "request: " + ev
	}
	d.settle(ev)
}
