package parh

import (
	"bytes"
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/util"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
	"verif/mc/shim/vrand"
)

// Two tasks run one operation each in a fresh process built with the race
// monitor. Nothing orders the two except what the library itself does, so any
// memory they share is reported whichever runs first.

// steady is a source of randomness without state.
type steady struct{}

func (steady) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(i*37 + 11)
	}
	return len(p), nil
}

type coldOp struct {
	name string
	make func(e *env) func()
}

var invText = "INVITE sip:bob@10.0.0.1:5070;p=%41?h=v SIP/2.0\r\nVia: SIP/2.0/UDP 10.1.1.1:5060;branch=z9hG4bK1;received=1.2.3.4, SIP/2.0/TCP h\r\nFrom: \"A \\\" B\" <sip:a%20b:pw@h>;tag=1\r\nt: <sip:b@h>\r\nCall-ID: x\r\nCSeq: 1 INVITE\r\nm: <sip:c@10.1.1.1>\r\nRecord-Route: <sip:p1;lr>,<sip:p2;lr>\r\nX-Any: thing\r\nMax-Forwards: 20\r\nSubject: hello\r\n world\r\nc: application/sdp\r\nContent-Length: 0\r\n\r\n"
var okText = strings.Replace(strings.Replace(invText, "INVITE sip:bob@10.0.0.1:5070;p=%41?h=v SIP/2.0", "SIP/2.0 200 OK", 1), "Content-Length: 0\r\n", "", 1) +
	"v=0\r\no=- 1 1 IN IP4 10.3.3.3\r\ns=-\r\nc=IN IP4 10.3.3.3\r\nt=0 0\r\nm=audio 30000 RTP/AVP 0 9 101\r\na=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-16\r\na=ptime:20\r\n"

func parse(s string) *sip.Msg {
	m, err := sip.ParseMsg([]byte(s))
	if err != nil {
		panic(err)
	}
	return m
}

// Objects used by both tasks.
var (
	bothMsg  *sip.Msg
	bothMsgs []*sip.Msg
	bothErr  error
	bothSDP  *sdp.SDP
	bareSDP  *sdp.SDP
	bothTp   *dialog.Transport
)

func pure(name string, f func()) coldOp {
	return coldOp{name, func(*env) func() { return f }}
}

var coldOps = []coldOp{
	pure("parse request", func() { parse(invText) }),
	pure("parse response with media", func() { parse(okText) }),
	pure("parse damaged message", func() {
		for _, s := range []string{"", "INVITE", "INVITE sip:x@y SIP/2.0\r\nFrom", "nonsense\r\n\r\n", strings.Replace(invText, "CSeq: 1", "CSeq: 99999999999", 1)} {
			if _, err := sip.ParseMsg([]byte(s)); err != nil {
				_ = err.Error()
			}
		}
	}),
	pure("parse URIs", func() {
		for _, s := range []string{"sip:a@b", "sips:a%41:p@[::1]:5;x=y;z?h=%20", "sip:", "tel:1"} {
			u, _ := sip.ParseURI([]byte(s))
			_ = u.String()
			if u == nil {
				continue
			}
			_, _ = u.GetPort(), u.CompareHostPort(u)
			u.Copy()
		}
	}),
	{"write message", func(*env) func() { m := parse(invText); return func() { _ = m.String() } }},
	{"copy message", func(*env) func() { m := parse(okText); return func() { m.Copy() } }},
	{"print one message", func(*env) func() {
		return func() {
			for _, m := range bothMsgs {
				_ = m.String()
			}
		}
	}},
	{"copy one message", func(*env) func() {
		return func() {
			for _, m := range bothMsgs {
				m.Copy()
				m.Via.Copy()
				m.From.Copy()
				m.Request.Copy()
			}
		}
	}},
	{"look into one message", func(*env) func() {
		return func() {
			for _, m := range bothMsgs {
				m.Via.Last()
				m.RecordRoute.Last()
				m.RecordRoute.Reversed()
				if m.Via != nil {
					m.Via.Detach()
					m.Via.Param.Get("branch")
					dialog.ResponseMatch(m, bothMsg)
					dialog.ResponseMatch(bothMsg, m)
					dialog.AckMatch(m, m)
				}
				if m.Request != nil {
					m.Request.Param.Get("p")
					_ = m.Request.String()
				}
				m.XHeader.Get("x-any")
				m.Via.CompareHostPort(bothMsg.Via)
				m.Via.CompareBranch(bothMsg.Via)
				m.Contact.CompareHostPort(m.From)
				_ = m.Contact.String()
				m.From.Or(m.To)
				m.IsResponse()
			}
			_ = bothErr.Error()
		}
	}},
	{"build from one message", func(*env) func() {
		return func() {
			rsp := dialog.NewResponse(bothMsg, 200)
			rsp.Contact = bothMsg.Contact
			_ = rsp.String()
			_ = dialog.NewAck(rsp, bothMsg).String()
			rsp.Status = 486
			_ = dialog.NewAck(rsp, bothMsg).String()
			_ = dialog.NewCancel(bothMsg).String()
			rsp.Status = 200
			_ = dialog.NewBye(bothMsg, rsp, nil).String()
			_ = dialog.NewRequest(bothTp, "OPTIONS", bothMsg.To, bothMsg.From).String()
		}
	}},
	{"describe one session", func(*env) func() {
		return func() {
			for _, d := range []*sdp.SDP{bothSDP, bareSDP} {
				_ = d.String()
				d.Data()
				d.ContentType()
			}
		}
	}},
	pure("describe a session", func() {
		s := sdp.New(&net.UDPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}, sdp.ULAWCodec, sdp.DTMFCodec)
		s.Origin.ID = "1"
		_, _ = sdp.Parse(s.String())
		_, _ = sdp.Parse("v=0\r\n")
	}),
	pure("names and phrases", func() {
		for i := 0; i < 700; i++ {
			_ = sip.Phrase(i)
		}
		(&sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "h"}, Display: "a\xff\"b"}).Tag()
		(&sip.Via{Host: "h"}).Branch()
	}),
	pure("identifiers", func() {
		util.GenerateTag()
		util.GenerateBranch()
		util.GenerateCallID()
		util.GenerateCSeq()
		util.GenerateOriginID()
		util.IsIPv6("::1")
		util.Portstr(9)
		util.IsRefused(&net.OpError{Op: "read", Err: os.NewSyscallError("read", syscall.ECONNREFUSED)})
		util.IsUseOfClosed(errors.New("use of closed network connection"))
	}),
	pure("resolve", func() {
		_, _ = dialog.RouteAddress("10.0.0.1", 0, true)
		_, _ = dialog.RouteAddress("::1", 7, true)
		_, _ = dialog.RouteAddress("h.d1.example", 0, true)
		_, _ = dialog.RouteAddress("h.d1.example", 5, false)
	}),
	pure("G.711", func() {
		for i := -40000; i < 40000; i += 77 {
			dsp.LinearToUlaw(int64(i))
		}
		for i := 0; i < 256; i++ {
			dsp.UlawToLinear(int64(i))
		}
	}),
	pure("mix", func() {
		var a, b [160]int16
		dsp.L16MixSat160(&a[0], &b[0])
	}),
	pure("noise", func() {
		g := dsp.NewAWGN(-50)
		h := dsp.NewAWGN_DBM0(-3, -20)
		for i := 0; i < 50; i++ {
			g.Get()
			h.Get()
		}
	}),
	pure("digits and headers", func() {
		for i := 0; i < 256; i++ {
			_, _ = rtp.CharToDtmf(byte(i))
			_, _ = rtp.DtmfToChar(uint8(i))
		}
		h := rtp.Header{PT: 3}
		_ = h.Read(h.Write(nil))
		e := rtp.EventHeader{E: true}
		b := make([]byte, 4)
		e.Write(b)
		e.Read(b)
	}),
	{"send on a session", func(e *env) func() {
		rs := newSess(e)
		return func() {
			var f rtp.Frame
			_ = rs.Send(&f)
			_ = rs.SendRaw(5, []byte{1, 2}, 3)
			_ = rs.SendDTMF('7')
			_ = rs.SendDTMF('x')
		}
	}},
	{"receive on a session", func(e *env) func() {
		rs := newSess(e)
		b := make([]byte, 172)
		b[0] = 0x80
		return func() {
			for i := 0; i < 2; i++ {
				rs.Sock.Inject(vnet.Packet{Data: b, Addr: rs.Peer})
				rs.R <- <-rs.C
			}
			rs.Close()
		}
	}},
	{"open a session", func(e *env) func() { return func() { newSess(e).Close() } }},
	{"send over one transport", func(e *env) func() {
		r := e.request("OPTIONS", 1)
		s := parse(okText)
		s.Via.Host, s.Via.Param = e.ip(1, 1), nil
		return func() { _ = bothTp.Send(r); _ = bothTp.Send(s) }
	}},
	{"send over a transport", func(e *env) func() {
		tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(4, 1)}})
		if err != nil {
			panic(err)
		}
		r := e.request("OPTIONS", 1)
		return func() { _ = tp.Send(r) }
	}},
	{"receive messages", func(e *env) func() {
		return func() {
			tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(4, 1)}})
			if err != nil {
				panic(err)
			}
			for _, s := range []string{invText, okText, "x", invText} {
				e.giveTo(tp.Sock, netUDP("10.9.9.9:9"), s)
				if s != "x" {
					_ = (<-tp.C).String()
				}
			}
			tp.Sock.Close()
			<-tp.E
		}
	}},
	{"call", func(e *env) func() { return func() { callAnswered(e) } }},
	{"cancelled call", func(e *env) func() { return func() { callCancelled(e) } }},
	{"call moving on", func(e *env) func() { return func() { callFailover(e) } }},
	{"whole transport", func(e *env) func() { return func() { transport(e) } }},
	{"whole receiving transport", func(e *env) func() { return func() { receiving(e) } }},
	{"whole session", func(e *env) func() { return func() { session(e) } }},
	{"all generators", func(e *env) func() { return func() { generators(e) } }},
}

func newSess(e *env) *rtp.Session {
	rs, err := rtp.NewSession(e.ip(6, 1))
	if err != nil {
		panic(err)
	}
	rs.Peer = netUDP(e.ip(7, 1) + ":7000")
	return rs
}

func coldChild() {
	var i, j int
	fmt.Sscanf(os.Getenv("VX_COLD"), "%d,%d", &i, &j)
	a, b := newEnv(1), newEnv(2)
	w := world(a, b)
	w.Yield = nil
	w.Quiet = true
	rand.Reader = steady{}
	vrand.Use(func() uint64 { return 0x123456789abcdef })
	setFlag("resendInterval", "100000")
	if os.Getenv("VX_TAGS") != "" {
		setFlag("timestampTagging", "true")
		setFlag("trace", "true")
	}
	// The messages both use are made by hand: nothing may have been used before.
	addr := func(u string) *sip.Addr {
		return &sip.Addr{Display: "x \"y\"", Uri: &sip.URI{Scheme: "sip", User: u, Host: "h", Param: &sip.URIParam{Name: "p", Value: "a b"}}, Param: &sip.Param{Name: "tag", Value: u}}
	}
	bothMsg = &sip.Msg{Method: "INVITE", Request: addr("r").Uri, Via: &sip.Via{Host: "a", Param: &sip.Param{Name: "branch", Value: "z"}, Next: &sip.Via{Host: "b", Param: &sip.Param{Name: "branch", Value: "z"}}},
		From: addr("f"), To: addr("t"), Contact: addr("c"), CallID: "id", CSeq: 4, CSeqMethod: "INVITE", XHeader: &sip.XHeader{Name: "X-Any", Value: []byte("v")}}
	bothMsg.RecordRoute = addr("1")
	bothMsg.RecordRoute.Next = addr("2")
	bothSDP = &sdp.SDP{Addr: "1.2.3.4", Audio: &sdp.Media{Proto: "RTP/AVP", Port: 6, Codecs: []sdp.Codec{{PT: 0, Name: "PCMU", Rate: 8000}}}, Attrs: [][2]string{{"a", "b"}}}
	bothMsg.Payload = bothSDP
	bareSDP = &sdp.SDP{Video: &sdp.Media{Codecs: []sdp.Codec{{PT: 120}}}}
	bothMsgs = []*sip.Msg{bothMsg,
		{Status: 486, Via: &sip.Via{Host: "c"}, From: addr("f"), To: &sip.Addr{Uri: &sip.URI{Host: "q"}}, CallID: "x", CSeqMethod: "INVITE"},
		{Status: 299, Via: &sip.Via{Host: "c"}, Payload: bareSDP, RecordRoute: addr("1"), CallID: "x"},
		{Method: "REGISTER", Request: &sip.URI{Host: "x"}, Contact: &sip.Addr{Uri: &sip.URI{}}, Payload: &sip.MiscPayload{T: "a", D: []byte("b")}},
		{}}
	bothErr = &sip.ResponseError{Msg: bothMsgs[1]}
	c := &vnet.UDPConn{}
	if k, err := vnet.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(10, 3, 0, 1), Port: 5060}); err == nil {
		c = k
	}
	bothTp = &dialog.Transport{Sock: c, Via: &sip.Via{Host: "10.3.0.1", Port: 5060}, Contact: addr("me")}
	var wg sync.WaitGroup
	wg.Add(2)
	f, g := coldOps[i].make(a), coldOps[j].make(b)
	go func() { defer wg.Done(); f() }()
	go func() { defer wg.Done(); g() }()
	wg.Wait()
	fmt.Println("COLD-DONE")
}

func cold(x *mc.X, i, j int, tags bool) {
	bin := os.Getenv("VX_RACE")
	if bin == "" {
		panic("no program with the race monitor")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-test.run=^TestVerif$")
	c.Env = append(os.Environ(), fmt.Sprintf("VX_COLD=%d,%d", i, j), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
	if tags {
		c.Env = append(c.Env, "VX_TAGS=1")
	}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.Run()
	s := out.String()
	x.Step(1)
	x.Checked(1)
	x.Cover("state", fmt.Sprint(i, j, tags))
	if n := strings.Index(s, "WARNING: DATA RACE"); n >= 0 {
		if len(s) > n+3000 {
			s = s[:n+3000]
		}
		x.Violate("race: "+where(s[n:]), "%s next to %s, no order between them\n%s", coldOps[i].name, coldOps[j].name, s[n:])
	}
	if !strings.Contains(s, "COLD-DONE") {
		x.Skip() // it fails in another way, which others judge
	}
}

// where names the functions of the library in a race report.
func where(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/jart/gosip/") {
			return l
		}
	}
	return "elsewhere"
}

func init() {
	n := len(coldOps)
	var names []string
	for _, o := range coldOps {
		names = append(names, o.name)
	}
	mc.Add(&mc.Suite{Prop: "C31", Name: "cold", Bound: fmt.Sprintf("every ordered pair of %d operations (%s), each by one of two tasks in a fresh process under the race monitor", n, strings.Join(names, ", ")),
		N: func() int64 { return int64(n * n) }, Case: func(x *mc.X, c int64) { cold(x, int(c)/n, int(c)%n, mc.Pick(0, 1) == 1 || c%2 == 0) }})
}
