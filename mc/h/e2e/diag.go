package e2eh

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
)

// diag is what is to be seen of a world from outside, and which diagnostics
// are on in it.
type diag struct {
	base, tags, trace bool
	fate              int // of the first datagram not simply delivered
	mu                sync.Mutex
	lines             []string
	out               []wire
	in                []wire // reached a socket
	unlogged          map[string]int
	logs              []string
	bad               string
	plain             bool // nobody forwards
}

type wire struct{ text, other string }

// cur is the observer, when somebody compares.
var cur *diag

var stamp = regexp.MustCompile(`;usi=[0-9]*`)

func (d *diag) line(f string, a ...any) { d.lines = append(d.lines, fmt.Sprintf(f, a...)) }

// strip is a text without the timestamps, where there are to be any.
func (d *diag) strip(t string) string {
	if d.tags {
		return stamp.ReplaceAllString(t, "")
	}
	return t
}

// stamped says whether the first Via names the moment.
func stamped(m *sip.Msg, now time.Time) bool {
	for p := m.Via.Param; p != nil; p = p.Next {
		if p.Name == "usi" && p.Value == strconv.FormatInt(now.UnixMicro(), 10) {
			return true
		}
	}
	return false
}

func (d *diag) sent(s *sim, g *dgram) {
	if d == nil {
		return
	}
	text := string(g.data)
	d.line("%v %s -> %s %q", g.at, g.src, g.dst, d.strip(text))
	d.out = append(d.out, wire{text, g.dst.String()})
	if m, err := sip.ParseMsg(append([]byte(nil), g.data...)); err == nil && m != nil && m.Via != nil {
		if d.tags && d.unlogged[text] == 0 && !stamped(m, s.start.Add(g.at)) {
			d.bad = "a datagram leaves without its timestamp\n" + text
		}
		for v := m.Via.Next; d.tags && d.plain && v != nil; v = v.Next {
			if v.Param.Get("usi") != nil {
				d.bad = "a timestamp on another Via\n" + text
			}
		}
	}
}

func (d *diag) arrived(s *sim, to *vnet.UDPConn, data []byte, src *net.UDPAddr) {
	if d == nil {
		return
	}
	w := wire{text: string(data)}
	for _, k := range s.nodes {
		if k.tp.Sock == to {
			w.other = src.String()
		}
	}
	d.in = append(d.in, w)
}

func (d *diag) heard(k *node, m *sip.Msg) {
	if d == nil || m == nil {
		return
	}
	d.line("%v %s hears %q", k.s.now(), k.name, d.strip(m.String()))
	if d.tags && (m.Via == nil || !stamped(m, time.Now())) {
		d.bad = "a message arrives without its timestamp\n" + m.String()
	}
	if d.tags && m.Via != nil && m.Via.Next != nil && stamped(&sip.Msg{Via: m.Via.Next}, time.Now()) {
		d.bad = "a timestamp on another Via\n" + m.String()
	}
}

func (d *diag) told(c *caller) {
	if d == nil {
		return
	}
	var es []string
	for _, e := range c.errs {
		es = append(es, d.strip(e.Error()))
	}
	d.line("%v the application is told: %v %q %v %v", c.s.now(), c.states, es, c.peers, c.closed)
}

func (d *diag) raw(b []byte) {
	if d == nil {
		return
	}
	if d.unlogged == nil {
		d.unlogged = map[string]int{}
	}
	d.unlogged[string(b)]++
}

func (d *diag) Write(b []byte) (int, error) {
	d.mu.Lock()
	d.logs = append(d.logs, string(b))
	d.mu.Unlock()
	return len(b), nil
}

// logged checks that what was sent and received is in the log, as it was.
func (d *diag) logged(x *mc.X, kind string) {
	type seen struct {
		least, most int
		places      []string
	}
	all := map[string]*seen{}
	of := func(t string) *seen {
		if all[t] == nil {
			all[t] = &seen{}
		}
		return all[t]
	}
	for _, w := range d.out {
		t := of(w.text)
		t.least++
		t.most++
		if d.unlogged[w.text] == 0 {
			t.places = append(t.places, w.other)
		}
	}
	for t, n := range d.unlogged {
		of(t).least -= n
		of(t).most -= n
	}
	for _, w := range d.in {
		t := of(w.text)
		t.most++
		if w.other != "" { // read for certain
			t.least++
			t.places = append(t.places, w.other)
		}
	}
	for t, n := range all {
		if t == "" {
			continue
		}
		x.Checked(1)
		m, err := sip.ParseMsg([]byte(t))
		once := err == nil && m != nil && m.Via != nil // why it is dropped may be told with it
		got := 0
		where := ""
		for _, l := range d.logs {
			if strings.Contains(l, t) {
				got++
				where += strings.Replace(l, t, "", 1)
			}
		}
		if !d.trace {
			if got > 0 && once {
				x.Violate("traced unasked: "+kind, "%d times\n%s", got, t)
			}
			continue
		}
		if got < n.least || got > n.most && once {
			x.Violate("not traced as it is: "+kind, "at least %d times, at most %d times; traced %d times\n%q\nthe log:\n%s", n.least, n.most, got, t, strings.Join(d.logs, ""))
		}
		for _, p := range n.places {
			if !strings.Contains(where, p) {
				x.Violate("traced without the other side: "+kind, "%s\n%s\nlogged with %s", p, t, where)
			}
		}
	}
}

func viaText(v *sip.Via) string {
	var b bytes.Buffer
	v.Append(&b)
	return b.String()
}

// modes are the diagnostics there are.
var modes = []string{"tracing", "timestamps", "both"}

// alike runs the same world with the diagnostics off and on.
func alike(x *mc.X, kind, mode string, fate int, run func()) {
	defer func() {
		cur = nil
		log.SetOutput(io.Discard)
	}()
	base := &diag{base: true, fate: fate}
	with := &diag{fate: fate, trace: mode != "timestamps", tags: mode != "tracing"}
	for _, d := range []*diag{base, with} {
		cur = d
		log.SetOutput(d)
		run()
	}
	kind += ", " + mode
	if with.bad != "" {
		x.Violate("timestamp: "+kind, "%s", with.bad)
	}
	x.Checked(len(base.lines))
	for i := 0; i < len(base.lines) || i < len(with.lines); i++ {
		a, b := "nothing", "nothing"
		if i < len(base.lines) {
			a = with.strip(base.lines[i])
		}
		if i < len(with.lines) {
			b = with.lines[i]
		}
		if a != b {
			x.Violate("goes another way: "+kind, "without diagnostics:\n%s\nwith %s:\n%s", a, mode, b)
		}
	}
	base.logged(x, kind)
	with.logged(x, kind)
	x.Cover("run", strings.Join(base.lines, "\n"))
}

// texts are datagrams for a host to receive.
func texts() (r []string) {
	const rest = "From: <sip:a@h>;tag=1\r\nTo: <sip:b@h>\r\nCall-ID: c\r\nCSeq: 1 OPTIONS\r\n"
	vias := []string{
		"Via: SIP/2.0/UDP 10.0.0.7:5070;branch=z9hG4bK1\r\n",
		"Via: SIP/2.0/UDP 10.0.0.7:5070\r\n",
		"v: SIP/2.0/UDP 10.0.0.7;rport;branch=z9hG4bK1;x=\"a b\"\r\n",
		"Via: SIP/2.0/UDP h.example:9;branch=z9hG4bK1, SIP/2.0/UDP 10.0.0.2:5060;a;b;c\r\nVia: SIP/2.0/TCP z\r\n",
		"",
	}
	for _, first := range []string{"OPTIONS sip:b@10.0.0.2 SIP/2.0\r\n", "SIP/2.0 200 OK\r\n", "OPTIONS sip:10.0.0.2;lr SIP/2.0\r\nRoute: <sip:b@h>\r\n"} {
		for _, v := range vias {
			for _, tail := range []string{"\r\n", "Content-Type: a/b\r\n\r\n%s %d 100%", "Content-Type: a/b\r\n\r\nline\n", "Content-Type: a/b\r\n\r\n\x00\xff\x1b[0m", "Subject: \xc3\xa9 \xff\r\n\r\n"} {
				r = append(r, first+v+rest+tail)
			}
		}
	}
	long := "OPTIONS sip:b@10.0.0.2 SIP/2.0\r\n" + vias[0] + rest
	for _, n := range []int{1000, 1500, 2048, 4096, 9000, 60000} {
		r = append(r, long+"Content-Type: a/b\r\n\r\n"+strings.Repeat("x", n)+fmt.Sprint("\n", n))
	}
	r = append(r, "", "\r\n\r\n", "x", "hello%d\r\n", "\x00\x00\x00\x00", "OPTIONS sip:b@10.0.0.2 SIP/2.0\r\nVia", strings.Replace(long, "Call-ID: c", "Call-ID: d", 1), strings.Repeat("%s", 400))
	return
}

// outgoing are messages for a host to send.
func outgoing() (r []func(k *node) *sip.Msg) {
	to := func() *sip.Addr {
		return &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "b", Host: "10.0.0.2", Port: 5060}}
	}
	for _, method := range []string{"INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "X"} {
		r = append(r, func(k *node) *sip.Msg {
			m := dialog.NewRequest(k.tp, method, to(), &sip.Addr{Uri: &sip.URI{User: "a", Host: "h"}})
			m.Contact = k.tp.Contact
			return m
		})
	}
	via := func(h string, p ...string) *sip.Via {
		v := &sip.Via{Host: h, Port: 5060}
		for i := len(p) - 1; i >= 0; i-- {
			v.Param = &sip.Param{Name: p[i], Value: p[i], Next: v.Param}
		}
		return v
	}
	r = append(r,
		func(k *node) *sip.Msg { return &sip.Msg{Method: "OPTIONS", Request: to().Uri} },
		func(k *node) *sip.Msg {
			v := via("10.0.0.3", "branch", "a", "b")
			v.Next = via("10.0.0.4", "branch")
			return &sip.Msg{Method: "MESSAGE", Request: to().Uri, Via: v, Payload: &sip.MiscPayload{T: "text/plain", D: []byte("100%\n")}}
		},
		func(k *node) *sip.Msg {
			return &sip.Msg{Method: "MESSAGE", Request: to().Uri, Payload: &sip.MiscPayload{T: "text/plain", D: bytes.Repeat([]byte("%d"), 20000)}}
		},
	)
	for _, below := range []*sip.Via{via("10.0.0.2", "branch"), {Host: "10.0.0.2", Param: &sip.Param{Name: "branch", Value: "z"}, Next: via("10.0.0.9", "x")}} {
		r = append(r, func(k *node) *sip.Msg {
			v := k.tp.Via.Copy()
			v.Next = below.Copy()
			for a, b := v.Next, below; a != nil && b != nil; a, b = a.Next, b.Next {
				a.Next = b.Next.Copy()
			}
			m := &sip.Msg{Status: 200, Via: v, From: to(), To: to(), CallID: "c", CSeq: 1, CSeqMethod: "OPTIONS"}
			m.Payload = &sip.MiscPayload{T: "a/b", D: []byte("no newline")}
			return m
		})
	}
	return
}

func init() {
	modeOf := func(x *mc.X) string { return x.OneOf("diagnostics", modes...) }
	mc.Add(&mc.Suite{Prop: "C36", Name: "calls", Split: 3,
		Bound: fmt.Sprintf("each of %d calls with every one of its datagrams lost, doubled or held up (thorough: and with each limit of retransmissions), with tracing, timestamps or both", len(scens)),
		Run: func(x *mc.X) {
			mode := modeOf(x)
			sc := &scens[x.Choose(len(scens), "scenario")]
			first, fate := x.Choose(longest+1, "first fault"), 0
			if first > 0 {
				fate = 1 + x.Choose(3, "fate")
			}
			max := 2
			if x.Thorough() {
				max = 1 + x.Choose(3, "retransmissions")
			}
			alike(x, sc.name, mode, fate, func() { play(x, sc, 0, max, first, sc.at, 0) })
		}})
	mc.Add(&mc.Suite{Prop: "C36", Name: "crossing", Split: 3,
		Bound: fmt.Sprintf("the caller hanging up at each of %d moments around each of %d events", len(moments), len(crossings)),
		Run: func(x *mc.X) {
			mode := modeOf(x)
			sc := crossings[x.Choose(len(crossings), "event")]
			sc.hang = never
			at := moments[x.Choose(len(moments), "moment")]
			alike(x, sc.name, mode, 0, func() { play(x, &sc, 0, 2, 0, at, 0) })
		}})
	n := mc.Pick(3, 4)
	mc.Add(&mc.Suite{Prop: "C36", Name: "paths", Split: 4,
		Bound: fmt.Sprintf("every chain of up to %d proxies, recording or not, loose or strict, on the default port or another, the way given or chosen, the caller a transport or a call, behind a translator (asking for its port or not) or not, and each of 4 ends", n),
		Run: func(x *mc.X) {
			mode := modeOf(x)
			call := x.Bool("caller is a call")
			nat := x.OneOf("translator", "none", "ports too", "address only")
			given := x.Bool("way given")
			kinds := make([]int, x.Choose(n+1, "proxies"))
			for i := range kinds {
				kinds[i] = x.Choose(6, "proxy")
			}
			asks := nat != "none" && x.Bool("asks for the port")
			end := x.OneOf("end", "near hangs up", "far hangs up", "declined", "cancelled")
			alike(x, "path", mode, 0, func() { path(x, call, nat, asks, given, false, kinds, 5060, end) })
		}})
	ts := texts()
	mc.Add(&mc.Suite{Prop: "C36", Name: "datagrams",
		Bound: fmt.Sprintf("every ordered pair of %d datagrams arriving at a host: requests and responses with 0..3 Vias of all kinds, bodies of all kinds and up to 60000 bytes, malformed ones, empty ones", len(ts)),
		N:     func() int64 { return int64(len(modes) * len(ts) * len(ts)) },
		Case: func(x *mc.X, i int64) {
			mode := modes[i%3]
			a, b := ts[i/3%int64(len(ts))], ts[i/3/int64(len(ts))]
			alike(x, "datagrams", mode, 0, func() {
				world(x, 0, 2, false, func(s *sim) {
					k := s.node("host", "10.0.0.2", 5060)
					k.on = func(m *sip.Msg) {}
					for _, t := range []string{a, b} {
						src := &net.UDPAddr{IP: net.IPv4(10, 0, 0, 7).To4(), Port: 5070}
						cur.arrived(s, k.tp.Sock, []byte(t), src)
						k.tp.Sock.Inject(vnet.Packet{Data: []byte(t), Addr: src})
						s.run(s.now()+20*ms, nil)
					}
				})
			})
		}})
	os := outgoing()
	mc.Add(&mc.Suite{Prop: "C36", Name: "sending",
		Bound: fmt.Sprintf("every sequence of 3 of %d messages sent from one transport to another, some with Vias of the application's own, the transport asking for its port or not", len(os)),
		N:     func() int64 { return int64(len(modes) * 2 * len(os) * len(os) * len(os)) },
		Case: func(x *mc.X, i int64) {
			mode := modes[i%3]
			i /= 3
			asks := i%2 == 1
			i /= 2
			alike(x, "sending", mode, 0, func() {
				world(x, 0, 2, false, func(s *sim) {
					cur.plain = true
					far := s.node("far", "10.0.0.2", 5060)
					far.on = func(m *sip.Msg) {}
					k := s.node("near", "10.0.0.1", 5068)
					k.on = func(m *sip.Msg) {}
					if asks {
						k.tp.Via.Param = &sip.Param{Name: "rport"}
					}
					for j, n := 0, i; j < 3; j++ {
						m := os[n%int64(len(os))](k)
						n /= int64(len(os))
						k.send(m)
						s.run(s.now()+20*ms, nil)
						cur.line("transport: %s %s", viaText(k.tp.Via), k.tp.Contact)
						cur.line("message: %s", cur.strip(m.String()))
					}
				})
			})
		}})
}
