package dlgh

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif/mc/mc"
)

// event is one thing that may happen to a call.
type event struct {
	name string
	do   func(d *drv)
}

func sdpText(s string) string {
	if s == "" {
		return ""
	}
	if s == "-" {
		return "v=0\r\no=- 1 1 IN IP4 192.0.2.9\r\ns=x\r\nc=IN IP4 192.0.2.9\r\nt=0 0\r\nm=video 9000 RTP/AVP 31\r\na=rtpmap:31 H261/90000\r\n"
	}
	i := strings.LastIndex(s, ":")
	c := "IP4 " + s[:i]
	if s[0] == '[' {
		c = "IP6 " + s[1:i-1]
	}
	return "v=0\r\no=- 1 1 IN IP4 192.0.2.8\r\ns=x\r\nc=IN " + c + "\r\nt=0 0\r\nm=audio " + s[i+1:] + " RTP/AVP 0 101\r\na=rtpmap:0 PCMU/8000\r\na=rtpmap:101 telephone-event/8000\r\n"
}

type respOpt struct {
	status     int
	contact    string
	rr         []string
	sdp        string
	to         string // tag
	method     string // "" current
	dcseq      int
	branch     string // "" ours
	viaHost    string
	viaPort    string
	via2       int // 1: another Via above ours, 2: another below
	callID     string
	version    string
	noBranch   bool
	spoil      string // text appended to the Call-ID line etc.
	rport      bool
	lowerCSeqM bool
}

func (d *drv) response(o respOpt) *in {
	q := d.cur
	i := &in{resp: true, status: o.status, method: q.Method, cseq: q.CSeq + o.dcseq, match: true, call: true, version: true, contact: o.contact, rr: o.rr, sdp: o.sdp}
	i.name = strconv.Itoa(o.status) + " to " + q.Method
	var b strings.Builder
	v := o.version
	if v == "" {
		v = "2.0"
	}
	i.version = v == "2.0"
	fmt.Fprintf(&b, "SIP/%s %d Phrase\r\n", v, o.status)
	ours := *q.Via
	ours.Param = ours.Param.Copy()
	if o.branch != "" {
		ours.Param.Get("branch").Value = o.branch
		i.match = false
	}
	if o.noBranch {
		ours.Param = nil
		i.match = false
	}
	if o.viaHost != "" {
		ours.Host = o.viaHost
		i.match = false
	}
	if o.viaPort != "" {
		n, _ := strconv.Atoi(o.viaPort)
		ours.Port = uint16(n)
		i.match = false
	}
	if o.via2 == 1 {
		b.WriteString("Via: SIP/2.0/UDP 192.0.2.1;branch=z9hG4bK-other\r\n")
	}
	var vb strings.Builder
	if strings.Contains(ours.Host, ":") {
		ours.Host = "[" + ours.Host + "]"
	}
	vb.WriteString("SIP/2.0/UDP " + ours.Host)
	if ours.Port != 0 {
		fmt.Fprintf(&vb, ":%d", ours.Port)
	}
	if o.rport {
		vb.WriteString(";rport=9;received=192.0.2.77")
	}
	for p := ours.Param; p != nil; p = p.Next {
		vb.WriteString(";" + p.Name)
		if p.Value != "" {
			vb.WriteString("=" + p.Value)
		}
	}
	b.WriteString("Via: " + vb.String() + "\r\n")
	if o.via2 == 2 {
		b.WriteString("Via: SIP/2.0/UDP 192.0.2.1;branch=z9hG4bK-other\r\n")
		i.match = false
	}
	b.WriteString("From: " + q.From.String() + "\r\n")
	to := *q.To
	to.Param = nil
	i.to = to.String()
	if o.to != "" {
		i.to += ";tag=" + o.to
	}
	b.WriteString("To: " + i.to + "\r\n")
	id := q.CallID
	if o.callID != "" {
		id = o.callID
		i.call = false
	}
	b.WriteString("Call-ID: " + id + "\r\n")
	if o.method != "" {
		i.method = o.method
	}
	fmt.Fprintf(&b, "CSeq: %d %s\r\n", i.cseq, i.method)
	for _, r := range o.rr {
		b.WriteString("Record-Route: " + r + "\r\n")
	}
	if o.contact != "" {
		b.WriteString("Contact: <" + o.contact + ">\r\n")
	}
	d.body(&b, o.sdp)
	i.text = b.String()
	return i
}

func (d *drv) body(b *strings.Builder, s string) {
	if t := sdpText(s); t != "" {
		fmt.Fprintf(b, "Content-Type: application/sdp\r\nContent-Length: %d\r\n\r\n%s", len(t), t)
	} else {
		b.WriteString("Content-Length: 0\r\n\r\n")
	}
}

type reqOpt struct {
	method  string
	dcseq   int // added to the highest CSeq so far; 1 is the next
	cseq    int // absolute, if not 0
	hops    int // 0: 70, <0: used up
	callID  string
	version string
	contact string
	rr      []string
	sdp     string
	via2    bool
	noMF    bool
}

func (d *drv) request(o reqOpt) *in {
	q := d.invite
	i := &in{name: o.method, method: o.method, call: true, version: true, contact: o.contact, sdp: o.sdp, hops: 70, rr: o.rr}
	if o.cseq != 0 {
		i.cseq = o.cseq
	} else {
		i.cseq = d.rcseq + o.dcseq
	}
	if i.cseq > d.rcseq && o.callID == "" && o.version == "" && o.hops >= 0 && !o.noMF {
		d.rcseq = i.cseq
	}
	if o.method == "INVITE" && o.callID == "" {
		d.lastRe = i.cseq
	}
	v := "2.0"
	if o.version != "" {
		v, i.version = o.version, false
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s SIP/%s\r\n", o.method, q.Contact.Uri.String(), v)
	d.ids++
	fmt.Fprintf(&b, "Via: SIP/2.0/UDP %s;branch=z9hG4bK-r%d\r\n", d.conn.RemoteAddr(), d.ids)
	if o.via2 {
		b.WriteString("Via: SIP/2.0/UDP 192.0.2.1:5070;branch=z9hG4bK-second;received=192.0.2.2\r\n")
	}
	to := *q.To
	to.Param = nil
	fmt.Fprintf(&b, "From: %s;tag=remote\r\nTo: %s\r\n", to.String(), q.From.String())
	id := q.CallID
	if o.callID != "" {
		id, i.call = o.callID, false
	}
	fmt.Fprintf(&b, "Call-ID: %s\r\nCSeq: %d %s\r\n", id, i.cseq, o.method)
	switch {
	case o.noMF:
		i.hops = 0
	case o.hops < 0:
		i.hops = 0
		b.WriteString("Max-Forwards: 0\r\n")
	case o.hops == 0:
		b.WriteString("Max-Forwards: 70\r\n")
	default:
		i.hops = o.hops
		fmt.Fprintf(&b, "Max-Forwards: %d\r\n", o.hops)
	}
	for _, r := range o.rr {
		b.WriteString("Record-Route: " + r + "\r\n")
	}
	if o.contact != "" {
		b.WriteString("Contact: <" + o.contact + ">\r\n")
	}
	d.body(&b, o.sdp)
	i.text = b.String()
	return i
}

func resp(name string, o respOpt) event {
	return event{name, func(d *drv) { d.arrive(d.response(o)) }}
}

func reqs(name string, o reqOpt) event {
	return event{name, func(d *drv) { d.arrive(d.request(o)) }}
}

const (
	c1   = "sip:bob@10.0.0.7:5070"
	c2   = "sip:bob@10.0.0.8"
	c3   = "sip:carol@two.example"
	c4   = "sip:dave@nowhere.example"
	med1 = "192.0.2.50:4000"
	med2 = "192.0.2.51:4002"
	med0 = "192.0.2.52:0"
	med6 = "[2001:db8::50]:4004"
)

var rrLoose = []string{"<sip:10.0.0.21:5061;lr>", "<sip:10.0.0.22;lr>"}
var rrStrict = []string{"<sip:10.0.0.21;lr>", "<sip:10.0.0.23:5063>"}

// again repeats the last message of the other side.
type memo struct{ last *in }

var (
	e100     = resp("100", respOpt{status: 100})
	e180     = resp("180", respOpt{status: 180, to: "t1"})
	e183     = resp("183+sdp", respOpt{status: 183, to: "t1", sdp: med1, contact: c1})
	e182     = resp("182", respOpt{status: 182, to: "t1"})
	e180s    = resp("180+video", respOpt{status: 180, to: "t1", sdp: "-"})
	e200     = resp("200", respOpt{status: 200, to: "t1", contact: c1, sdp: med1})
	e200rr   = resp("200+routes", respOpt{status: 200, to: "t1", contact: c2, rr: rrLoose, sdp: med2})
	e200st   = resp("200+strict routes", respOpt{status: 200, to: "t1", contact: c1, rr: rrStrict})
	e200host = resp("200+host contact", respOpt{status: 200, to: "t1", contact: c3})
	e200no   = resp("200+unresolvable contact", respOpt{status: 200, to: "t1", contact: c4})
	e200bare = resp("200 no contact", respOpt{status: 200, to: "t1", sdp: med1})
	e200t2   = resp("200 from another branch", respOpt{status: 200, to: "t2", contact: c2, sdp: med2})
	e202     = resp("202", respOpt{status: 202, to: "t1", contact: c1})
	e299     = resp("299", respOpt{status: 299, to: "t1", contact: c1, sdp: "-"})
	e199     = resp("199+sdp", respOpt{status: 199, to: "t1", sdp: med2})
	e486     = resp("486", respOpt{status: 486, to: "t1"})
	e486c    = resp("486+contact+routes+sdp", respOpt{status: 486, to: "t1", contact: c1, rr: rrLoose, sdp: med1})
	e487     = resp("487", respOpt{status: 487, to: "t1"})
	e401     = resp("401", respOpt{status: 401})
	e503     = resp("503", respOpt{status: 503, to: "t3"})
	e603     = resp("603", respOpt{status: 603, to: "t1"})
	e300     = resp("300", respOpt{status: 300, to: "t1", contact: c2})
	e301     = resp("301", respOpt{status: 301, to: "t1", contact: c2})
	e302     = resp("302", respOpt{status: 302, to: "t1", contact: c3})
	e302same = resp("302 to the same address", respOpt{status: 302, to: "t1", contact: "sip:x@10.0.0.1"})
	e302none = resp("302 no contact", respOpt{status: 302, to: "t1"})
	e302bad  = resp("302 to nowhere", respOpt{status: 302, to: "t1", contact: c4})
	e301none = resp("301 no contact", respOpt{status: 301, to: "t1"})
	e200v6   = resp("200+IPv6 media", respOpt{status: 200, to: "t1", contact: c1, sdp: med6})
	e183held = resp("183+audio port 0", respOpt{status: 183, to: "t1", sdp: med0})
	eOther1  = resp("200 of another branch id", respOpt{status: 200, to: "t1", contact: c1, sdp: med1, branch: "z9hG4bK-no"})
	eOther2  = resp("200 of another CSeq", respOpt{status: 200, to: "t1", contact: c1, sdp: med1, dcseq: 1})
	eOther2b = resp("486 of an earlier CSeq", respOpt{status: 486, to: "t1", dcseq: -1})
	eOther3  = resp("200 of another method", respOpt{status: 200, to: "t1", contact: c1, sdp: med1, method: "CANCEL"})
	eOther3c = resp("200 of CANCEL bare", respOpt{status: 200, to: "t1", method: "CANCEL"})
	eOther3d = resp("487 of BYE", respOpt{status: 487, to: "t1", method: "BYE"})
	eOther3b = resp("200 of OPTIONS", respOpt{status: 200, to: "t1", contact: c1, sdp: med1, method: "OPTIONS"})
	eOther4  = resp("200 of another call", respOpt{status: 200, to: "t1", contact: c1, sdp: med1, callID: "other"})
	eOther5  = resp("200 via another host", respOpt{status: 200, to: "t1", contact: c1, sdp: med1, viaHost: "10.9.9.9"})
	eOther6  = resp("486 via another port", respOpt{status: 486, to: "t1", viaPort: "5999"})
	eOther7  = resp("503 without branch", respOpt{status: 503, to: "t1", noBranch: true})
	eOther8  = resp("183 with our Via on top only", respOpt{status: 183, to: "t1", sdp: med1, via2: 2})
	eTwoVia  = resp("183 with our Via last", respOpt{status: 183, to: "t1", sdp: med1, via2: 1})
	eRport   = resp("200 with rport filled in", respOpt{status: 200, to: "t1", contact: c1, sdp: med1, rport: true})
	eOther9  = resp("486 of another call", respOpt{status: 486, to: "t1", callID: "other"})
	eVer     = resp("200 of SIP/3.0", respOpt{status: 200, to: "t1", contact: c1, version: "3.0"})
	eVer2    = resp("180 of SIP/2.1", respOpt{status: 180, to: "t1", version: "2.1"})
	eVerO    = resp("200 of SIP/3.0 of another call", respOpt{status: 200, to: "t1", contact: c1, version: "3.0", callID: "other"})
	eBye     = reqs("BYE", reqOpt{method: "BYE", dcseq: 1})
	eOptions = reqs("OPTIONS", reqOpt{method: "OPTIONS", dcseq: 1})
	eOptSame = reqs("OPTIONS again", reqOpt{method: "OPTIONS"})
	eOptBig  = reqs("OPTIONS far ahead", reqOpt{method: "OPTIONS", dcseq: 1000, via2: true})
	eReinv   = reqs("re-INVITE", reqOpt{method: "INVITE", dcseq: 1, contact: c2, sdp: med2, rr: []string{"<sip:10.0.0.66;lr>"}})
	eReinv2  = reqs("re-INVITE bare", reqOpt{method: "INVITE", dcseq: 1})
	eReinvS  = reqs("re-INVITE again", reqOpt{method: "INVITE", contact: c3, sdp: "-", via2: true})
	eReinvC  = reqs("re-INVITE with a contact only", reqOpt{method: "INVITE", dcseq: 1, contact: c3})
	eReinv0  = reqs("re-INVITE on hold", reqOpt{method: "INVITE", dcseq: 1, contact: c1, sdp: med0})
	eReinv6  = reqs("re-INVITE+IPv6 media", reqOpt{method: "INVITE", dcseq: 1, contact: c1, sdp: med6})
	eOne     = reqs("OPTIONS one too low", reqOpt{method: "OPTIONS", dcseq: -1})
	eInfo    = reqs("INFO", reqOpt{method: "INFO", dcseq: 1})
	eCancel  = reqs("CANCEL", reqOpt{method: "CANCEL", dcseq: 1, sdp: med1})
	eLow     = reqs("OPTIONS out of order", reqOpt{method: "OPTIONS", cseq: 50})
	eLowBye  = reqs("BYE out of order", reqOpt{method: "BYE", cseq: 51})
	eLowInv  = reqs("re-INVITE out of order", reqOpt{method: "INVITE", cseq: 52, contact: c3, sdp: med2})
	eHops    = reqs("OPTIONS without hops left", reqOpt{method: "OPTIONS", dcseq: 1, hops: -1})
	eHopsBye = reqs("BYE without hops left", reqOpt{method: "BYE", dcseq: 1, hops: -1})
	eHops1   = reqs("OPTIONS with one hop", reqOpt{method: "OPTIONS", dcseq: 1, hops: 1})
	eForeign = reqs("OPTIONS of another call", reqOpt{method: "OPTIONS", dcseq: 1, callID: "other"})
	eForBye  = reqs("BYE of another call", reqOpt{method: "BYE", dcseq: 1, callID: "other"})
	eForInv  = reqs("INVITE of another call", reqOpt{method: "INVITE", dcseq: 9, callID: "other", contact: c3, sdp: med2})
	eForHop  = reqs("OPTIONS of another call without hops", reqOpt{method: "OPTIONS", dcseq: 1, callID: "other", hops: -1})
	eOdd     = reqs("OPTIONS of SIP/3.0", reqOpt{method: "OPTIONS", dcseq: 1, version: "3.0"})
	eOddAck  = reqs("ACK of SIP/3.0", reqOpt{method: "ACK", version: "3.0"})
	eForAck  = reqs("ACK of another call", reqOpt{method: "ACK", callID: "other"})
	eAckNoMF = event{"ACK without Max-Forwards", func(d *drv) { d.arrive(d.request(reqOpt{method: "ACK", cseq: max(d.lastRe, 1), noMF: true})) }}
	eAck     = event{"ACK", func(d *drv) { d.arrive(d.request(reqOpt{method: "ACK", cseq: max(d.lastRe, 1)})) }}
	eAckHigh = event{"ACK of a later CSeq", func(d *drv) { d.arrive(d.request(reqOpt{method: "ACK", cseq: d.rcseq + 2000})) }}
	eGarbage = event{"garbage", func(d *drv) { d.junk("INVITE sip:x@y SIP/2.0\r\nVia: broken") }}
	eNoVia   = event{"response without Via", func(d *drv) {
		d.junk(stripVia(d.response(respOpt{status: 200, to: "t1", contact: c1, sdp: med1}).text))
	}}
	eEmpty    = event{"empty datagram", func(d *drv) { d.junk("") }}
	eKeep     = event{"keep-alive", func(d *drv) { d.junk("\r\n\r\n") }}
	eNext     = event{"time: next deadline", func(d *drv) { d.deadline() }}
	eRefused  = event{"fault: refused on reading", func(d *drv) { d.readError("refused", false) }}
	eBroken   = event{"fault: socket broken", func(d *drv) { d.readError("broken", false) }}
	eWRefused = event{"fault: next write refused", func(d *drv) { d.fault("refused") }}
	eWBroken  = event{"fault: next write fails", func(d *drv) { d.fault("broken") }}
	eHangup   = event{"hangup", func(d *drv) { d.hangup() }}
)

func stripVia(s string) string {
	var o []string
	for _, l := range strings.SplitAfter(s, "\r\n") {
		if !strings.HasPrefix(l, "Via:") {
			o = append(o, l)
		}
	}
	return strings.Join(o, "")
}

func (d *drv) junk(s string) {
	d.inject(s)
	d.settle("junk datagram")
}

// play performs one event unless the call is over.
func (d *drv) play(e event) {
	d.x.Logf("%s", e.name)
	d.tick()
	if d.stop() {
		return
	}
	e.do(d)
	d.cover(e.name)
}

// cover counts the state of the reference reached.
func (d *drv) cover(ev string) {
	m := d.m
	rel := func(t time.Time) int {
		if t.IsZero() {
			return -1
		}
		return int(t.Sub(m.now) / tickLen)
	}
	respSeq := 0
	if m.resp != nil {
		respSeq = m.resp.cseq - m.rseq
	}
	d.x.CoverH("state", mc.Hash(fmt.Sprint(m.over, m.state, m.answered, m.cancelled, m.bye, m.uri, m.route, m.routes, m.addr, m.resends, m.target, m.rset, m.rseq, respSeq, m.respN, rel(m.reqDL) < 0, rel(m.respDL) < 0, m.wfault, len(m.rep))))
}

// explore lets every sequence of n of the events happen.
func (d *drv) explore(n int, evs []event) {
	for i := 0; i < n && !d.stop(); i++ {
		d.play(evs[d.x.Choose(len(evs), "event")])
	}
}
