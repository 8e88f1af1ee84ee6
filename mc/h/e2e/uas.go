package e2eh

import (
	"fmt"
	"strings"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

// uas is a callee that follows the protocol, built from the library's pieces.
type uas struct {
	*node
	s       *sim
	tag     string
	calls   int // calls it was asked to take: INVITEs outside of a dialog that are not retransmissions
	txs     map[string]*tx
	script  func(u *uas, t *tx)
	call    *tx      // the call it took
	remote  *sip.Msg // target and identity of the caller
	target  *sip.URI
	cseq    int
	byes    int      // BYEs received for the call it has
	over    bool     // the call ended here
	gaveUp  bool     // nobody acknowledged
	sdps    []string // media addresses told, in order of becoming valid
	out     *ctx     // our request under way
	outs    []*ctx   // all of them
	done    []*sip.Msg
	rcseq   int
	strange []string
	rr      *sip.Addr
	last    int  // port of its media
	oldest  int  // how often it sends something
	ghost   bool // never answers at all
	pending []func()
	telling string // media address under way
	mhost   int    // the host its media is at, if not its own
	ears    []*ear
	known   []time.Duration // when the caller is known to know of it
	settle  []func()        // what it does once its move was accepted
}

// tx is an INVITE it was sent.
type tx struct {
	req   *sip.Msg
	resp  *sip.Msg
	final bool
	acked bool
	tries int
}

// ctx is a request it sent.
type ctx struct {
	req   *sip.Msg
	tries int
	ended bool
	then  func(rsp *sip.Msg)
}

func (s *sim) uas(name, ip string, port uint16, script func(u *uas, t *tx)) *uas {
	u := &uas{node: s.node(name, ip, port), s: s, tag: "tag-" + name, txs: map[string]*tx{}, script: script, cseq: 500, last: 20000}
	u.node.on = u.message
	u.oldest = s.max + 4
	return u
}

func branchOf(m *sip.Msg) string {
	if p := m.Via.Param.Get("branch"); p != nil {
		return p.Value
	}
	return ""
}

func tagOf(a *sip.Addr) string {
	if a == nil {
		return ""
	}
	if p := a.Param.Get("tag"); p != nil {
		return p.Value
	}
	return ""
}

func (u *uas) odd(f string, a ...any) {
	u.s.fail("the callee sees", "%s: %s", u.name, fmt.Sprintf(f, a...))
}

// reply makes a response.
func (u *uas) reply(req *sip.Msg, status int, media bool) *sip.Msg {
	r := dialog.NewResponse(req, status)
	if tagOf(r.To) == "" && status != 100 {
		r.To = r.To.Copy()
		r.To.Param = &sip.Param{Name: "tag", Value: u.tag, Next: r.To.Param}
	}
	if req.Method == sip.MethodInvite {
		r.Contact = u.tp.Contact
		if media {
			u.last += 2
			r.Payload = u.media(u.last)
		}
	}
	return r
}

func (u *uas) media(port int) *sdp.SDP {
	if u.s.media {
		u.ears = append(u.ears, u.s.ear(u.name, fmt.Sprintf("%s:%d", u.mediaIP(), port)))
		u.known = append(u.known, 0)
	}
	return &sdp.SDP{Session: "-", Time: "0 0", Addr: u.mediaIP(), Origin: sdp.Origin{User: "-", ID: "1", Version: "1", Addr: u.ip},
		Audio: &sdp.Media{Proto: "RTP/AVP", Port: uint16(port), Codecs: []sdp.Codec{sdp.ULAWCodec}}}
}

func (u *uas) told(m *sip.Msg) {
	if ms, ok := m.Payload.(*sdp.SDP); ok {
		u.sdps = append(u.sdps, fmt.Sprintf("%s:%d", ms.Addr, ms.Audio.Port))
	}
}

// answer responds to the INVITE t.
func (u *uas) answer(t *tx, status int, media bool) {
	if t.final {
		return
	}
	t.resp = u.reply(t.req, status, media)
	t.final = status >= 200
	if status == 200 {
		u.call = t
		u.remote = t.req
		u.target = t.req.Contact.Uri
		u.rr = t.req.RecordRoute
		u.told(t.resp)
	}
	u.send(t.resp)
	if t.final {
		u.again(t)
	}
}

// again sends a final response until it is acknowledged.
func (u *uas) again(t *tx) {
	u.s.after(uasT, u.name+" response again", func() {
		if t.acked || u.over {
			return
		}
		if t.tries++; t.tries > u.oldest {
			if t == u.call {
				u.gaveUp = true
				u.hangup()
			}
			return
		}
		u.send(t.resp)
		u.again(t)
	})
}

func (u *uas) message(m *sip.Msg) {
	if m.IsResponse() {
		var c *ctx
		for _, o := range u.outs {
			if dialog.ResponseMatch(o.req, m) {
				c = o
			}
		}
		if c == nil {
			return
		}
		if m.Status < 200 {
			return
		}
		if m.Status >= 300 && c.req.Method == sip.MethodBye {
			u.odd("its BYE is refused: %s", m)
		}
		if c.req.Method == sip.MethodInvite && m.Status < 300 {
			u.ackTo(c, m)
		}
		if !c.ended {
			c.ended = true
			if c.then != nil {
				c.then(m)
			}
		}
		return
	}
	if u.s.nat {
		if p := m.Via.Last().Param.Get("received"); p == nil || p.Value != outside.String() {
			u.odd("no trace of the address the request came from: %s", m)
		}
	}
	switch m.Method {
	case sip.MethodInvite:
		if t := u.txs[branchOf(m)]; t != nil {
			if t.resp != nil && !t.acked {
				u.send(t.resp)
			}
			return
		}
		if tagOf(m.To) != "" {
			u.odd("an INVITE within a dialog: %s", m)
		}
		if !reachable(m.Contact) || m.From == nil || tagOf(m.From) == "" || m.CallID == "" || m.CSeqMethod != "INVITE" {
			u.odd("an incomplete INVITE: %s", m)
		}
		if u.ghost {
			return
		}
		t := &tx{req: m}
		u.txs[branchOf(m)] = t
		u.calls++
		u.script(u, t)
	case sip.MethodAck:
		of := u.txs[branchOf(m)]
		for _, t := range u.txs {
			if !t.final || m.CallID != t.req.CallID || of != nil && of != t {
				continue
			}
			if t.resp.Status < 300 {
				if dialog.AckMatch(t.req, m) != (m.CSeq == t.req.CSeq) {
					u.odd("an ACK not matching the INVITE it is for: %s", m)
				}
				if tagOf(m.To) != u.tag || tagOf(m.From) != tagOf(t.req.From) {
					u.odd("an ACK of another dialog: %s", m)
				}
				if m.Request.Host != u.ip {
					u.odd("an ACK not for our contact: %s", m)
				}
				if m.Route != nil {
					u.odd("an ACK not for us: %s", m)
				}
			} else if branchOf(m) != branchOf(t.req) {
				continue
			}
			if t.acked = true; t == u.call {
				fs := u.pending
				u.pending = nil
				for i, f := range fs {
					u.s.after(time.Duration(i*19+1)*time.Millisecond, "now", f)
				}
			}
		}
	case sip.MethodCancel:
		t := u.txs[branchOf(m)]
		if t == nil {
			u.send(u.reply(m, 481, false))
			return
		}
		if m.Request.String() != t.req.Request.String() || m.CSeq != t.req.CSeq {
			u.odd("a CANCEL unlike its INVITE: %s", m)
		}
		u.s.cancels++
		u.send(u.reply(m, 200, false))
		u.answer(t, 487, false)
	case sip.MethodBye:
		if u.call == nil || m.CallID != u.call.req.CallID {
			u.send(u.reply(m, 481, false))
			return
		}
		if tagOf(m.To) != u.tag || tagOf(m.From) != tagOf(u.call.req.From) {
			u.odd("a BYE of another dialog: %s", m)
		}
		if m.CSeq <= u.call.req.CSeq {
			u.odd("a BYE out of order: %d after %d", m.CSeq, u.call.req.CSeq)
		}
		if m.Request.Host != u.ip || m.Route != nil {
			u.odd("a BYE not for us: %s", m)
		}
		u.byes++
		u.over = true
		u.send(u.reply(m, 200, false))
	default:
		u.odd("%s", m)
	}
}

// settled does f once the caller has acknowledged the answer, as it must.
func (u *uas) settled(what string, f func()) {
	if u.over || u.call == nil || u.call.acked || u.gaveUp {
		f()
		return
	}
	u.pending = append(u.pending, func() { u.s.say("%s %s", u.name, what); f() })
}

// request makes a request within the call.
func (u *uas) request(method string) *sip.Msg {
	from := u.call.resp.To
	m := dialog.NewRequest(u.tp, method, &sip.Addr{Uri: u.target}, nil)
	m.From, m.To, m.CallID = from, u.remote.From, u.remote.CallID
	u.cseq++
	m.CSeq = u.cseq
	m.Route = u.rr.Copy()
	m.Contact = u.tp.Contact
	return m
}

// ask sends a request until it is answered.
func (u *uas) ask(m *sip.Msg, then func(rsp *sip.Msg)) {
	c := &ctx{req: m, then: then}
	u.out = c
	u.outs = append(u.outs, c)
	var go_ func()
	go_ = func() {
		if c.ended || u.over && m.Method != sip.MethodBye {
			return
		}
		if c.tries++; c.tries > u.oldest {
			c.ended = true
			if then != nil {
				then(nil)
			}
			return
		}
		u.send(m)
		u.s.after(uasT, u.name+" request again", go_)
	}
	go_()
}

func (u *uas) hangup() {
	if u.over || u.call == nil {
		return
	}
	u.settled("hangs up", func() {
		if u.over {
			return
		}
		u.over = true
		u.ask(u.request(sip.MethodBye), nil)
	})
}

// move sends a re-INVITE with new media.
func (u *uas) move() {
	if u.over || u.call == nil {
		return
	}
	u.settled("moves", u.moveNow)
}

// moveHost moves the media to the same port of another host.
func (u *uas) moveHost() {
	if u.over || u.call == nil {
		return
	}
	u.settled("moves to another host", func() {
		u.mhost++
		u.moveNow()
	})
}

func (u *uas) mediaIP() string {
	if u.mhost > 0 {
		return fmt.Sprintf("10.0.0.%d", 20+u.mhost)
	}
	return u.ip
}

func (u *uas) moveNow() {
	if u.over {
		return
	}
	m := u.request(sip.MethodInvite)
	if u.mhost == 0 {
		u.last += 2
	}
	m.Payload = u.media(u.last)
	u.telling = fmt.Sprintf("%s:%d", u.mediaIP(), u.last)
	at := len(u.ears) - 1
	u.ask(m, func(r *sip.Msg) {
		if r == nil || r.Status != 200 {
			if u.over {
				return
			}
			u.odd("re-INVITE not accepted: %v", r)
		}
		u.told(m)
		u.telling = ""
		if u.s.media {
			u.known[at] = u.s.now()
		}
		if len(u.settle) > 0 {
			f := u.settle[0]
			u.settle = u.settle[1:]
			u.s.after(29*time.Millisecond, u.name+" goes on", f)
		}
	})
}

// ping sends OPTIONS, which have to be answered.
func (u *uas) ping() {
	if u.over || u.call == nil {
		return
	}
	u.ask(u.request(sip.MethodOptions), func(r *sip.Msg) {
		if (r == nil || r.Status != 200) && !u.over {
			u.odd("OPTIONS not answered: %v", r)
		}
	})
}

func (u *uas) ackTo(c *ctx, m *sip.Msg) {
	a := u.requestAck(c.req)
	u.send(a)
}

func (u *uas) requestAck(re *sip.Msg) *sip.Msg {
	a := dialog.NewRequest(u.tp, sip.MethodAck, &sip.Addr{Uri: u.target}, nil)
	a.From, a.To, a.CallID, a.CSeq = re.From, re.To, re.CallID, re.CSeq
	a.Route = u.rr.Copy()
	a.Contact = u.tp.Contact
	return a
}

// ---- a proxy ----

type proxy struct {
	*node
	record  bool
	next    string // rewrites the target to this host
	nport   uint16
	strange int
}

func (s *sim) proxy(name, ip string, port uint16, record bool, next string, nport uint16) *proxy {
	p := &proxy{node: s.node(name, ip, port), record: record, next: next, nport: nport}
	p.node.on = p.forward
	return p
}

func (p *proxy) forward(m *sip.Msg) {
	if m.IsResponse() {
		p.send(m)
		return
	}
	v := p.tp.Via.Copy()
	v.Param = &sip.Param{Name: "branch", Value: "z9hG4bK-" + p.name + strings.TrimPrefix(branchOf(m), "z9hG4bK"), Next: v.Param}
	v.Next = m.Via
	m.Via = v
	if m.Method == sip.MethodInvite && tagOf(m.To) == "" && p.record {
		m.RecordRoute = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: p.ip, Port: p.port, Param: &sip.URIParam{Name: "lr"}}, Next: m.RecordRoute}
	}
	if p.next != "" && m.Route == nil && m.Request.Host == p.ip {
		m.Request = m.Request.Copy()
		m.Request.Host, m.Request.Port = p.next, p.nport
	}
	p.send(m)
}
