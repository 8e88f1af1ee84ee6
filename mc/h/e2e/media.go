package e2eh

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/sdp"

	"verif/mc/mc"
)

// heardAs is the mu-law encoding of s, decoded again (ITU-T G.711).
func heardAs(s int16) int16 {
	v, neg := int(s), false
	if v < 0 {
		v, neg = -v, true
	}
	if v += 132; v > 32767 {
		v = 32767
	}
	seg := 0
	for 256<<seg <= v {
		seg++
	}
	v = (v>>(seg+3)&15*8+132)<<seg - 132
	if neg {
		v = -v
	}
	return int16(v)
}

// utter is the n'th frame an end says; all differ.
func utter(who, n int) *rtp.Frame {
	f := new(rtp.Frame)
	for i := range f {
		f[i] = int16(uint32(i*(409+n*2)+n*7919+who*31337) * 1009 >> 3)
	}
	f[0], f[1], f[2] = int16(who*1000+n*8+132), int16(32767-n), int16(-32768+n)
	return f
}

func heard(f *rtp.Frame) (g rtp.Frame) {
	for i, v := range f {
		g[i] = heardAs(v)
	}
	return
}

// ear is a media session and what was heard on it.
type ear struct {
	s     *sim
	name  string
	rs    *rtp.Session
	at    string // its address
	got   []rtp.Frame
	when  []time.Duration
	wire  [][]byte // everything that arrived, as it was
	dead  bool
	birth time.Duration
}

func (s *sim) ear(name, host string) *ear {
	rs, err := rtp.NewSession(host)
	if err != nil || rs == nil {
		s.fail("no session", "%s: %v", name, err)
	}
	e := &ear{s: s, name: name, rs: rs, at: rs.Sock.LocalAddr().String(), birth: s.now()}
	s.ears = append(s.ears, e)
	return e
}

func (e *ear) poll() bool {
	if e.dead {
		return false
	}
	select {
	case f, ok := <-e.rs.C:
		if !ok {
			e.s.fail("session ends by itself", "%s", e.name)
		}
		e.got = append(e.got, *f)
		e.when = append(e.when, e.s.now())
		e.rs.R <- f
		return true
	case err := <-e.rs.E:
		e.s.fail("session fails", "%s: %v", e.name, err)
	default:
	}
	return false
}

func (e *ear) close() {
	if e.dead {
		return
	}
	e.dead = true
	e.rs.Close()
	if e.rs.Sock != nil {
		e.s.fail("session not closed", "%s", e.name)
	}
}

// pkt is a packet as any other implementation would see it.
type pkt struct {
	seq  uint16
	ts   uint32
	ssrc uint32
	pt   byte
	mark bool
	body []byte
}

func (s *sim) packet(b []byte) (p pkt) {
	if len(b) < 12 || b[0] != 0x80 {
		s.fail("not RTP", "% x", b)
	}
	p.mark, p.pt = b[1]&128 != 0, b[1]&127
	p.seq = uint16(b[2])<<8 | uint16(b[3])
	p.ts = uint32(b[4])<<24 | uint32(b[5])<<16 | uint32(b[6])<<8 | uint32(b[7])
	p.ssrc = uint32(b[8])<<24 | uint32(b[9])<<16 | uint32(b[10])<<8 | uint32(b[11])
	p.body = b[12:]
	return
}

// said is what an end did, in order.
type said struct {
	kind  string // "audio", "noise", "digit"
	n     int    // which frame
	digit byte
	to    string // where it went
	lost  int    // datagrams of it that did not arrive
	total int
	text  string
	fates []int
}

// mouth is a session speaking, with a record of it.
type mouth struct {
	*ear
	who  int
	said []said
	n    int
}

func (m *mouth) say(kind string, digit byte) {
	rs := m.rs
	e := said{kind: kind, n: m.n, digit: digit}
	if rs.Peer != nil {
		e.to = rs.Peer.String()
	}
	e.text = m.text(e)
	m.said = append(m.said, e)
	m.s.talking = &m.said[len(m.said)-1]
	var err error
	switch kind {
	case "audio":
		f := utter(m.who, m.n)
		err = rs.Send(f)
		if *f != *utter(m.who, m.n) {
			m.s.fail("what is said gets changed", "%s frame %d", m.name, m.n)
		}
	case "noise":
		err = rs.SendRaw(13, []byte{byte(64 + m.n%16)}, 160)
	case "digit":
		err = rs.SendDTMF(digit)
	}
	m.n++
	if err != nil {
		m.s.fail("cannot speak", "%s: %v", m.name, err)
	}
	m.s.collect()
	m.s.talking = nil
}

// sounds is a listener of another make: it puts the packets in order, drops
// doubles, and tells what was said from them alone.
func (s *sim) sounds(wire [][]byte, seq0 uint16) (texts []string) {
	type slot struct {
		off int
		p   pkt
	}
	var ps []slot
	seen := map[uint16]string{}
	for _, b := range wire {
		p := s.packet(b)
		if t, ok := seen[p.seq]; ok {
			if t != string(b) {
				s.fail("two packets of one number", "%d", p.seq)
			}
			continue
		}
		seen[p.seq] = string(b)
		off := int(uint16(p.seq - seq0))
		i := len(ps)
		for i > 0 && ps[i-1].off > off {
			i--
		}
		ps = append(ps[:i], append([]slot{{off, p}}, ps[i:]...)...)
	}
	var events []uint32
	lastTS, lastEnd := uint32(0), uint32(0)
	for i, sl := range ps {
		p := sl.p
		if i > 0 && p.ssrc != ps[0].p.ssrc {
			s.fail("two sources in one stream", "%x and %x", p.ssrc, ps[0].p.ssrc)
		}
		switch p.pt {
		case 0:
			if i > 0 && int32(p.ts-lastEnd) < 0 {
				s.fail("audio over something else", "timestamp %d before %d", p.ts, lastEnd)
			}
			if i > 0 && sl.off == ps[i-1].off+1 && ps[i-1].p.pt != 101 && p.ts != lastEnd {
				s.fail("a gap in the timestamps", "%d instead of %d", p.ts, lastEnd)
			}
			lastTS, lastEnd = p.ts, p.ts+160
			texts = append(texts, "audio "+fmt.Sprint(mc.Hash(string(p.body))))
		case 13:
			if i > 0 && int32(p.ts-lastEnd) < 0 {
				s.fail("audio over something else", "timestamp %d before %d", p.ts, lastEnd)
			}
			lastTS, lastEnd = p.ts, p.ts+160
			texts = append(texts, fmt.Sprintf("noise %d", p.body))
		case 101:
			if len(p.body) != 4 {
				s.fail("not an event", "% x", p.body)
			}
			if len(events) > 0 && events[len(events)-1] == p.ts {
				// More of the event.
				if k := len(texts) - 1; p.body[1]&128 != 0 && !strings.HasSuffix(texts[k], "released") {
					texts[k] += " released"
				}
				break
			}
			if i > 0 && int32(p.ts-lastEnd) < 0 && p.ts != lastTS {
				s.fail("event over something else", "timestamp %d before %d", p.ts, lastEnd)
			}
			events = append(events, p.ts)
			lastTS, lastEnd = p.ts, p.ts
			if p.body[0] > 16 {
				s.fail("no event of that number", "%d", p.body[0])
			}
			texts = append(texts, "digit "+string("0123456789*#ABCD!"[p.body[0]]))
			if p.body[1]&128 != 0 {
				texts[len(texts)-1] += " released"
			}
		default:
			s.fail("unknown payload", "%d", p.pt)
		}
	}
	return
}

// text is how a listener would put it.
func (m *mouth) text(e said) string {
	switch e.kind {
	case "audio":
		f := utter(m.who, e.n)
		b := make([]byte, 160)
		for i := range b {
			b[i] = mulaw(f[i])
		}
		return "audio " + fmt.Sprint(mc.Hash(string(b)))
	case "noise":
		return fmt.Sprintf("noise %d", []byte{byte(64 + e.n%16)})
	}
	return "digit " + strings.ToUpper(string(e.digit))
}

func mulaw(s int16) byte {
	v, sign := int(s), byte(0)
	if v < 0 {
		v, sign = -v, 0x80
	}
	if v += 132; v > 32767 {
		v = 32767
	}
	seg := 0
	for 256<<seg <= v {
		seg++
	}
	return ^(sign | byte(seg)<<4 | byte(v>>(seg+3))&15)
}

// judge compares what was heard at e with what m said to it.
func (m *mouth) judge(e *ear, seq0 uint16) {
	var want []string
	for _, v := range m.said {
		if v.to == e.at && v.lost < v.total {
			t := v.text
			if v.kind == "digit" {
				// Any of the last three tells of the end.
				for _, f := range v.fates[len(v.fates)-3:] {
					if f != 1 {
						t = v.text + " released"
					}
				}
			}
			want = append(want, t)
		}
	}
	got := m.s.sounds(e.wire, seq0)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		m.s.fail("a listener cannot make out what was said", "at %s: %v, said %v", e.at, got, want)
	}
	// The library's own ear: audio only, as it arrived.
	i := 0
	which := map[string]int{}
	for _, v := range m.said {
		which[v.text] = v.n
	}
	for _, b := range e.wire {
		p := m.s.packet(b)
		if p.pt != 0 {
			continue
		}
		if i >= len(e.got) {
			m.s.fail("audio not heard", "at %s: %d frames", e.at, len(e.got))
		}
		k, ok := which["audio "+fmt.Sprint(mc.Hash(string(p.body)))]
		if !ok || e.got[i] != heard(utter(m.who, k)) {
			m.s.fail("audio heard wrongly", "at %s: frame %d", e.at, i)
		}
		i++
	}
	if i != len(e.got) {
		m.s.fail("heard what nobody said", "at %s: %d frames of %d", e.at, len(e.got), i)
	}
}

func init() {
	acts := []string{"A speaks", "A is silent with noise", "A types 5", "A types D", "B speaks", "B types #", "A turns to B's other ear", "A is put on hold or taken off it"}
	type shape struct{ depth, faults int }
	shapes := []shape{{mc.Pick(3, 4), 1}, {2, mc.Pick(2, 3)}, {mc.Pick(5, 6), 0}}
	for i, sh := range shapes {
		mc.Add(&mc.Suite{Prop: "C35", Name: []string{"talk", "talk-lossy", "talk-long"}[i], Split: 4,
			Bound: fmt.Sprintf("every conversation of up to %d acts (%s), every way to lose, double or hold up %d datagrams; numbers and timestamps from ordinary values or about to wrap", sh.depth, strings.Join(acts, "; "), sh.faults),
			Run: func(x *mc.X) {
				wrap := x.Bool("about to wrap")
				var plan []int
				for d := 0; d < sh.depth; d++ {
					c := x.Choose(len(acts)+1, "act")
					if c == 0 {
						break
					}
					plan = append(plan, c-1)
				}
				talk(x, plan, wrap, sh.faults, acts)
			}})
	}
	mc.Add(&mc.Suite{Prop: "C35", Name: "digits", Bound: "two digits, the same or different, at once after each other or with audio in between, with every subset of their fourteen packets lost",
		N: func() int64 { return 4 << 14 },
		Case: func(x *mc.X, i int64) {
			lost := uint(i & (1<<14 - 1))
			k := int(i >> 14)
			world(x, 0, 2, false, func(s *sim) {
				b := s.ear("B", "10.0.0.2:5004")
				a := &mouth{ear: s.ear("A", "10.0.0.1:5004"), who: 1}
				a.rs.Peer = &net.UDPAddr{IP: net.IPv4(10, 0, 0, 2).To4(), Port: 5004}
				seq0 := a.rs.Header.Seq
				n := 0
				s.lose = func(d *dgram) bool {
					if p := s.packet(d.data); p.pt != 101 {
						return false
					}
					n++
					return n <= 14 && lost>>(n-1)&1 > 0
				}
				a.say("digit", '7')
				if k&1 > 0 {
					a.say("audio", 0)
				}
				a.say("digit", "73"[k>>1])
				a.say("audio", 0)
				s.run(s.now()+50*time.Millisecond, nil)
				a.judge(b, seq0)
				s.hush()
			})
			x.CoverH("talk", uint64(i)+1<<40)
			x.Checked(1)
		}})
}

// hush closes all sessions.
func (s *sim) hush() {
	for _, e := range s.ears {
		e.close()
	}
}

func talk(x *mc.X, plan []int, wrap bool, faults int, acts []string) {
	world(x, faults, 2, false, func(s *sim) {
		s.late = 53 * time.Millisecond
		b := &mouth{ear: s.ear("B", "10.0.0.2:5004"), who: 2}
		b2 := s.ear("B's other", "10.0.0.2:5006")
		a := &mouth{ear: s.ear("A", "10.0.0.1"), who: 1}
		if wrap {
			a.rs.Header.Seq, a.rs.Header.TS = 65533, 1<<32-200
			b.rs.Header.Seq, b.rs.Header.TS = 65535, 1<<32-160
		}
		addr := func(e *ear) *net.UDPAddr { return e.rs.Sock.LocalAddr().(*net.UDPAddr) }
		a.rs.Peer, b.rs.Peer = addr(b.ear), addr(a.ear)
		sa, sb := a.rs.Header.Seq, b.rs.Header.Seq
		other := addr(b2)
		var held *net.UDPAddr
		for _, c := range plan {
			s.say("%s", acts[c])
			switch c {
			case 0:
				a.say("audio", 0)
			case 1:
				a.say("noise", 0)
			case 2:
				a.say("digit", '5')
			case 3:
				a.say("digit", 'D')
			case 4:
				b.say("audio", 0)
			case 5:
				b.say("digit", '#')
			case 6:
				if held != nil {
					held, other = other, held
				} else {
					a.rs.Peer, other = other, a.rs.Peer
				}
			case 7:
				a.rs.Peer, held = held, a.rs.Peer
			}
			s.run(s.now()+20*time.Millisecond, nil)
		}
		s.run(s.now()+100*time.Millisecond, nil)
		a.judge(b.ear, sa)
		a.judge(b2, sa)
		b.judge(a.ear, sb)
		n := s.n
		s.hush()
		s.run(s.now()+100*time.Millisecond, nil)
		if s.n != n {
			s.fail("speaks after the end", "")
		}
		x.Cover("talk", fmt.Sprint(plan, wrap, s.fates))
		x.Checked(1)
	})
}

// ---- media in calls ----

var talks = func() (ss []scen) {
	for _, sc := range scens {
		switch sc.name {
		case "rings, is answered, caller hangs up", "is answered at once, caller hangs up", "early media, is answered, caller hangs up", "callee hangs up",
			"declined", "cancelled while ringing", "callee moves, caller hangs up", "callee moves twice, hangs up", "callee moves twice in a row, pings, hangs up", "callee's media goes to other hosts, hangs up", "callee moves as soon as it can, and again later",
			"callee moves while the caller hangs up", "both hang up", "redirected", "first address unavailable", "through two proxies, callee moves and hangs up":
			ss = append(ss, sc)
		}
	}
	return
}()

const beat = 50 * time.Millisecond

func init() {
	F := mc.Pick(1, 2)
	mc.Add(&mc.Suite{Prop: "C35", Name: "calls", Split: 3,
		Bound: fmt.Sprintf("every way to lose, double or hold up up to %d datagrams of the signalling of each of %d calls with audio both ways every %v: %s", F, len(talks), beat, names(talks)),
		Run: func(x *mc.X) {
			sc := &talks[x.Choose(len(talks), "scenario")]
			if first := x.Choose(longest+1, "first fault"); first > 0 {
				converse(x, sc, F, first)
			} else {
				converse(x, sc, 0, 0)
			}
		}})
}

func converse(x *mc.X, sc *scen, budget, first int) {
	world(x, budget, mc.Pick(2, 3), false, func(s *sim) {
		s.first = first
		s.media = true
		u := sc.set(s)
		m := invite("10.0.0.2", 0)
		if sc.msg != nil {
			m = sc.msg()
		}
		a := &mouth{ear: s.ear("caller", "10.0.0.1:40404"), who: 1}
		sa := a.rs.Header.Seq
		c := s.call(m)
		if sc.at > 0 {
			s.after(sc.at, "hang up", c.hangup)
		}
		// The caller speaks whenever it knows where to, the callee once it
		// has accepted.
		var b *mouth
		var sb uint16
		var tick func()
		over := false
		tick = func() {
			if over {
				return
			}
			c.mu.Lock()
			if n := len(c.peers); n > 0 {
				p, err := net.ResolveUDPAddr("udp", c.peers[n-1])
				if err != nil {
					s.fail("peer", "%v", err)
				}
				a.rs.Peer = p
			}
			c.mu.Unlock()
			a.say("audio", 0)
			if u != nil && u.call != nil && u.call.acked && a.rs.Peer == nil {
				s.fail("the caller is not told where to speak", "%v", c.peers)
			}
			if u != nil && u.call != nil && !u.over {
				if b == nil {
					b = &mouth{ear: u.ears[len(u.ears)-1], who: 2}
					sb = b.rs.Header.Seq
					ms := u.call.req.Payload.(*sdp.SDP)
					b.rs.Peer = &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
				}
				b.say("audio", 0)
			}
			s.after(beat, "speak", tick)
		}
		tick()
		planned := false
		s.run(horizon, func() bool {
			if sc.hang >= 0 && !planned && c.said(dialog.Answered) > 0 {
				planned = true
				s.after(sc.hang, "hang up", c.hangup)
			}
			return c.closed
		})
		over = true
		if !c.closed {
			s.fail("the call never ends", "")
		}
		s.run(s.now()+6*time.Second, nil)
		// Everything said to a place was heard there, and the newest place is
		// where the caller's words go from the moment the callee knows it is
		// known.
		for _, e := range u.ears {
			a.judge(e, sa)
		}
		if b != nil {
			b.judge(a.ear, sb)
			if len(a.got) != len(b.said) {
				s.fail("the caller misses something", "%d of %d frames", len(a.got), len(b.said))
			}
		}
		for i, e := range u.ears {
			for _, t := range e.when {
				if i+1 < len(u.ears) && u.known[i+1] > 0 && t > u.known[i+1]+beat+2*latency {
					s.fail("the caller speaks to where the callee was", "at %v to %s", t, e.at)
				}
			}
		}
		total := 0
		for _, v := range a.said {
			if v.to != "" {
				total++
			}
		}
		n := 0
		for _, e := range u.ears {
			n += len(e.got)
		}
		if n != total {
			s.fail("the callee misses something", "%d of %d frames", n, total)
		}
		s.hush()
		x.Cover("talk", sc.name+fmt.Sprint(total, len(a.got), s.n))
		x.Checked(1)
	})
}
