package rtph

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"reflect"

	"github.com/jart/gosip/rtp"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
	"verif/mc/shim/vrand"
)

// ulaw is the G.711 mu-law encoding of s (ITU-T G.711: bias, segment,
// quantisation within the segment, all bits inverted).
func ulaw(s int16) byte {
	v, sign := int(s), byte(0)
	if v < 0 {
		v, sign = -v, 0x80
	}
	v += 132
	if v > 32767 {
		v = 32767
	}
	seg := byte(0)
	for 256<<seg <= v {
		seg++
	}
	return ^(sign | seg<<4 | byte(v>>(seg+3))&15)
}

func unulaw(b byte) int16 {
	b = ^b
	v := (int(b&15)*8+132)<<(b>>4&7) - 132
	if b&0x80 != 0 {
		v = -v
	}
	return int16(v)
}

var (
	peer1 = &net.UDPAddr{IP: net.IPv4(1, 2, 3, 4).To4(), Port: 5004}
	peer2 = &net.UDPAddr{IP: net.ParseIP("2001:db8::7"), Port: 65535}
)

type sent struct {
	h    rtp.Header
	body []byte
	to   string
}

func isDTMF(d byte) (uint8, bool) {
	for i, c := range "0123456789*#ABCD!" {
		if d == byte(c) || d >= 'a' && d <= 'd' && d-32 == byte(c) {
			return uint8(i), true
		}
	}
	return 0, false
}

// stream is the reference: what has been sent and what must come next.
type stream struct {
	x      *mc.X
	rs     *rtp.Session
	w      *vnet.World
	seq    uint16
	ts     uint32
	ssrc   uint32
	fails  int // the write, from now, that fails
	errs   error
	seen   int
	events map[uint32]bool
}

func newStream(x *mc.X, host string) *stream {
	rs, err := rtp.NewSession(host)
	if err != nil {
		x.Violate("no session", "%v", err)
	}
	return &stream{x: x, rs: rs, w: vnet.Cur, seq: rs.Header.Seq, ts: rs.Header.TS, ssrc: rs.Header.Ssrc, fails: -1, events: map[uint32]bool{}}
}

var errWrite = errors.New("vnet: write failed")

// out returns the packets this session sent since the last call.
func (s *stream) out() (ps []sent) {
	ops := s.w.Snapshot()
	for _, o := range ops[s.seen:] {
		if o.Kind == "write" && o.Conn == s.rs.Sock && o.Err == nil {
			var h rtp.Header
			if err := h.Read(o.Pkt.Data); err != nil {
				s.x.Violate("packet without RTP header", "% x: %v", o.Pkt.Data, err)
			}
			if !bytes.Equal(wire(h), o.Pkt.Data[:12]) {
				s.x.Violate("packet header", "% x", o.Pkt.Data)
			}
			ps = append(ps, sent{h, o.Pkt.Data[12:], o.Pkt.Addr.String()})
		}
	}
	s.seen = len(ops)
	s.x.Step(len(ps))
	return
}

func (s *stream) arm(fail int) {
	s.fails = fail
	s.w.WriteErr = func(c *vnet.UDPConn, p vnet.Packet) error {
		if c != s.rs.Sock {
			return nil
		}
		s.fails--
		if s.fails == -1 {
			return errWrite
		}
		return nil
	}
	if fail < 0 {
		s.w.WriteErr = nil
	}
}

func (s *stream) one(key string, err error, pt uint8, body []byte, samps uint32, failed, dead bool) {
	ps := s.out()
	x := s.x
	x.Checked(1)
	if dead {
		if len(ps) != 0 || err != nil {
			x.Violate(key+": sent without peer or socket", "%d packets, %v", len(ps), err)
		}
		return
	}
	if failed {
		if len(ps) != 0 || err == nil || !errors.Is(err, errWrite) {
			x.Violate(key+": write error not reported", "%v", err)
		}
	} else {
		if err != nil || len(ps) != 1 {
			x.Violate(key+": not sent once", "%d packets, %v", len(ps), err)
		}
		p := ps[0]
		want := rtp.Header{PT: pt, Seq: s.seq, TS: s.ts, Ssrc: s.ssrc}
		if p.h != want {
			x.Violate(key+": header", "got  %+v\nwant %+v", p.h, want)
		}
		if !bytes.Equal(p.body, body) {
			x.Violate(key+": payload", "got  % x\nwant % x", p.body, body)
		}
		x.Eq(p.to, s.rs.Peer.String(), key+": destination")
		x.CoverH("distinct", mc.Hash(fmt.Sprint(p)))
	}
	s.seq++
	s.ts += samps
}

func (s *stream) send(f *rtp.Frame, fail bool) {
	keep := *f
	want := make([]byte, 160)
	for i, v := range f {
		want[i] = ulaw(v)
	}
	dead := s.rs.Sock == nil || s.rs.Peer == nil
	if fail {
		s.arm(0)
	}
	err := s.rs.Send(f)
	s.arm(-1)
	if *f != keep {
		s.x.Violate("frame modified", "Send changed the caller's frame")
	}
	s.one("frame", err, 0, want, 160, fail, dead)
}

func (s *stream) raw(pt uint8, data []byte, samps uint32, fail bool) {
	full := data[:cap(data)]
	keep := append([]byte{}, full...)
	n := len(data)
	dead := s.rs.Sock == nil || s.rs.Peer == nil
	if fail {
		s.arm(0)
	}
	err := s.rs.SendRaw(pt, data, samps)
	s.arm(-1)
	if !bytes.Equal(full, keep) {
		s.x.Violate("data modified", "SendRaw changed the caller's data")
	}
	s.one("raw", err, pt, keep[:n], samps, fail, dead)
}

// dtmf sends a digit; fail is the number of the packet whose write fails (-1:
// none).
func (s *stream) dtmf(d byte, fail int) {
	x := s.x
	dead := s.rs.Sock == nil || s.rs.Peer == nil
	code, ok := isDTMF(d)
	s.arm(fail)
	err := s.rs.SendDTMF(d)
	unused := s.fails >= 0
	s.arm(-1)
	ps := s.out()
	x.Checked(1)
	if !ok {
		if err == nil || len(ps) != 0 {
			x.Violate("invalid digit sent", "%q: %d packets, %v", d, len(ps), err)
		}
		return
	}
	if dead {
		if err != nil || len(ps) != 0 {
			x.Violate("digit sent without peer or socket", "%d packets, %v", len(ps), err)
		}
		return
	}
	failed := fail >= 0 && !unused
	if failed != (err != nil) || failed && !errors.Is(err, errWrite) {
		x.Violate("digit: write error", "failed=%v err=%v", failed, err)
	}
	if failed && len(ps) != fail {
		x.Violate("digit: packets after a failure", "write %d failed, %d packets left", fail, len(ps))
	}
	if !failed && len(ps) < 4 {
		x.Violate("digit: incomplete event", "%d packets", len(ps))
	}
	if s.events[s.ts] {
		x.Violate("digit: timestamp of an earlier event", "%d", s.ts)
	}
	s.events[s.ts] = true
	ends, last := 0, -1
	for i, p := range ps {
		want := rtp.Header{PT: 101, Mark: i == 0, Seq: s.seq, TS: s.ts, Ssrc: s.ssrc}
		if p.h != want {
			x.Violate("digit: header", "packet %d: got  %+v\nwant %+v", i, p.h, want)
		}
		if len(p.body) != 4 {
			x.Violate("digit: payload length", "packet %d: % x", i, p.body)
		}
		x.Eq(p.to, s.rs.Peer.String(), "digit: destination")
		e := p.body[1]&0x80 != 0
		dur := int(p.body[2])*256 + int(p.body[3])
		if p.body[0] != code || p.body[1]&0x40 != 0 {
			x.Violate("digit: event", "packet %d: % x want event %d", i, p.body, code)
		}
		switch {
		case e && ends == 0 && (i == 0 || dur < last), !e && (ends > 0 || dur <= last), e && ends > 0 && dur != last, dur == 0:
			x.Violate("digit: durations", "packet %d: end=%v duration %d after %d", i, e, dur, last)
		}
		if e {
			ends++
		}
		last = dur
		s.seq++
	}
	if !failed && ends != 3 {
		x.Violate("digit: end packets", "%d", ends)
	}
	x.CoverH("distinct", mc.Hash(fmt.Sprint(d, ps)))
	s.ts = s.rs.Header.TS // the next packet shows what was added: see below
	s.eventSamples(ps, last, failed)
}

// eventSamples: the event took as long as its final duration says.
func (s *stream) eventSamples(ps []sent, last int, failed bool) {
	if len(ps) == 0 {
		return
	}
	if d := s.rs.Header.TS - ps[0].h.TS; !failed && d != uint32(last) {
		s.x.Violate("digit: timestamp advance", "advanced by %d, final duration %d", d, last)
	} else if failed && d == 0 {
		s.x.Violate("digit: timestamp not advanced after a failure", "%d", s.rs.Header.TS)
	}
}

func frames() []*rtp.Frame {
	var fs []*rtp.Frame
	for k := 0; k < 3; k++ {
		f := new(rtp.Frame)
		for i := range f {
			switch k {
			case 1:
				f[i] = int16(i*411 - 32768)
			case 2:
				f[i] = int16(i * i * 37 * (1 - 2*(i%2)))
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func session(x *mc.X, body func()) {
	vnet.Cur = vnet.NewWorld()
	n := uint64(1)
	vrand.Use(func() uint64 { n += 0x9e3779b97f4a7c15; return n })
	if x.Bubble(body) {
		x.Violate("tasks left", "a task was still blocked after the session was closed")
	}
	if o := vnet.Cur.Open(); len(o) > 0 {
		x.Violate("sockets left", "%d sockets still open", len(o))
	}
}

func init() {
	mc.Add(&mc.Suite{Prop: "C11", Name: "streams", Bound: fmt.Sprintf("every sequence of up to %d operations (3 frames, 5 raw payloads, 3 digits, each also with its write failing, peer set, changed and removed, socket removed) from 4 start values next to the wrap-arounds", mc.Pick(4, 5)),
		Split: 2,
		Run: func(x *mc.X) {
			fs := frames()
			session(x, func() {
				s := newStream(x, "1.2.3.4")
				sock := s.rs.Sock
				switch x.Choose(4, "start") {
				case 1:
					s.rs.Header.Seq, s.rs.Header.TS = 65534, 0xffffffff-400
				case 2:
					s.rs.Header.Seq, s.rs.Header.TS, s.rs.Header.Ssrc = 32766, 0x7fffffff-100, 0xffffffff
				case 3:
					s.rs.Header.Seq, s.rs.Header.TS, s.rs.Header.Ssrc = 65529, 0xffffffff, 0
				}
				s.seq, s.ts, s.ssrc = s.rs.Header.Seq, s.rs.Header.TS, s.rs.Header.Ssrc
				s.rs.Peer = peer1
				spare := append(make([]byte, 0, 64), "hello, world"...)
				big := bytes.Repeat([]byte{1, 2, 3, 4}, 500)
				for i := 0; i < mc.Pick(4, 5); i++ {
					op := x.Choose(19, "op")
					x.Logf("op %d", op)
					switch op {
					case 0:
						i = 99
					case 1, 2:
						s.send(fs[op-1], false)
					case 3:
						s.send(fs[2], true)
					case 4:
						s.raw(0, nil, 0, false)
					case 5:
						s.raw(127, spare, 1, false)
					case 6:
						s.raw(96, big, 0xffffffff, false)
					case 7:
						s.raw(8, spare[:3], 80, true)
					case 8:
						s.raw(101, big[:1488], 160, false)
					case 9:
						s.dtmf('0', -1)
					case 10:
						s.dtmf('d', 0)
					case 11:
						s.dtmf('#', 3)
					case 12:
						s.dtmf('9', 6)
					case 13:
						s.dtmf('x', -1)
					case 14:
						s.rs.Peer = peer2
					case 15:
						s.rs.Peer = nil
					case 16:
						s.rs.Sock = nil
					case 17:
						s.rs.Sock = sock
					case 18:
						s.raw(3, spare, 40, true)
					}
					if g := s.rs.Header; g.Seq != s.seq || g.TS != s.ts || g.Ssrc != s.ssrc {
						x.Violate("session state", "after op %d: %+v want seq %d ts %d", op, g, s.seq, s.ts)
					}
					if g := s.rs.Header; g.Mark {
						x.Violate("marker left set", "after op %d", op)
					}
				}
				s.rs.Sock = sock
				s.rs.Close()
			})
		}})
	mc.Add(&mc.Suite{Prop: "C11", Name: "samples", Bound: "every 16-bit sample at every position of a frame (410 frames x 160 rotations at step 16, thorough: all)",
		N: func() int64 { return 410 },
		Case: func(x *mc.X, i int64) {
			session(x, func() {
				s := newStream(x, "1.2.3.4")
				s.rs.Peer = peer1
				for r := 0; r < 160; r += mc.Pick(16, 1) {
					f := new(rtp.Frame)
					for k := range f {
						f[(k+r)%160] = int16(i*160 + int64(k))
					}
					s.send(f, false)
				}
				s.rs.Close()
			})
		}})
	mc.Add(&mc.Suite{Prop: "C11", Name: "payloads", Bound: "raw payloads of every length 0..3000 and every payload type, followed by a frame",
		N: func() int64 { return 3001 },
		Case: func(x *mc.X, i int64) {
			session(x, func() {
				s := newStream(x, "1.2.3.4")
				s.rs.Peer = peer2
				d := make([]byte, i)
				for k := range d {
					d[k] = byte(k * int(i+7))
				}
				s.raw(uint8(i%128), d, uint32(i*i*i), false)
				s.send(frames()[1], false)
				s.raw(uint8(i%128), d[:i/2], 5, i%2 == 0)
				s.send(frames()[2], i%3 == 0)
				s.raw(uint8(i%128), d, 5, false)
				s.rs.Close()
			})
		}})
	mc.Add(&mc.Suite{Prop: "C11", Name: "wrap", Bound: "70000 packets of one session of each kind: the sequence number and the timestamp go through all their values' wrap-arounds",
		N: func() int64 { return 3 },
		Case: func(x *mc.X, i int64) {
			session(x, func() {
				s := newStream(x, "1.2.3.4")
				s.rs.Peer = peer1
				if i == 2 {
					s.rs.Header.TS = 0xfff00000
					s.ts = s.rs.Header.TS
				}
				f := frames()[2]
				for k := 0; k < 70000; k++ {
					if k%1000 == 0 {
						s.w.Ops, s.seen = nil, 0
					}
					switch i {
					case 0:
						s.raw(9, []byte{byte(k)}, 65536, false)
					case 1:
						s.send(f, k%500 == 0)
					case 2:
						if k%7 == 0 {
							s.dtmf("0123456789*#abcdABCD!"[k%21], k/7%20-8)
						}
					}
				}
				s.rs.Close()
			})
		}})
	mc.Add(&mc.Suite{Prop: "C11", Name: "two-sessions", Bound: fmt.Sprintf("every interleaving of %d operations on two sessions; sessions do not influence each other and have their own source", mc.Pick(5, 6)),
		Split: 2,
		Run: func(x *mc.X) {
			fs := frames()
			session(x, func() {
				ss := []*stream{newStream(x, "1.2.3.4"), newStream(x, "1.2.3.5")}
				if ss[0].ssrc == ss[1].ssrc {
					x.Violate("same source", "two sessions drew different numbers but have the source %d", ss[0].ssrc)
				}
				ss[0].rs.Peer, ss[1].rs.Peer = peer1, peer2
				for i := 0; i < mc.Pick(5, 6); i++ {
					op := x.Choose(7, "op")
					s := ss[op%2]
					switch op {
					case 6:
						i = 99
					case 0, 1:
						s.send(fs[1+op], false)
					case 2, 3:
						s.raw(5, []byte{byte(i)}, 7, op == 3)
					case 4, 5:
						s.dtmf('5', 5-op*2)
					}
				}
				for _, s := range ss {
					if g := s.rs.Header; g.Seq != s.seq || g.TS != s.ts || g.Ssrc != s.ssrc {
						x.Violate("session state", "%+v want seq %d ts %d ssrc %d", g, s.seq, s.ts, s.ssrc)
					}
					s.rs.Close()
				}
			})
		}})
	mc.Add(&mc.Suite{Prop: "C11", Name: "no-session", Bound: "every operation on a nil session, and on one without socket and peer",
		N: func() int64 { return 2 },
		Case: func(x *mc.X, i int64) {
			var rs *rtp.Session
			if i == 1 {
				rs = &rtp.Session{Header: rtp.Header{Seq: 5}}
			}
			x.NoCrash("crash without a session", func() {
				if rs.Send(new(rtp.Frame)) != nil || rs.SendRaw(1, []byte{1}, 1) != nil || rs.SendDTMF('1') != nil {
					x.Violate("error without a session", "")
				}
				if rs != nil && !reflect.DeepEqual(rs, &rtp.Session{Header: rtp.Header{Seq: 5}}) {
					x.Violate("session without socket changed", "%+v", rs)
				}
				rs.Close()
				rs.CloseAfterError()
			})
			x.CoverH("distinct", uint64(i))
		}})

	digits := func(x *mc.X, n int, fail bool) {
		session(x, func() {
			s := newStream(x, "1.2.3.4")
			s.rs.Peer = peer1
			if x.Bool("wrap") {
				s.rs.Header.Seq, s.rs.Header.TS = 65530, 0xffffffff-300
				s.seq, s.ts = s.rs.Header.Seq, s.rs.Header.TS
			}
			for i := 0; i < n; i++ {
				d := x.OneOf("digit", "0", "A", "d", "!", "x", "\x00", "\xff", "frame", "peer", "end")
				f := -1
				if fail && len(d) == 1 {
					f = x.Choose(9, "failing write") - 1
				}
				x.Logf("%q failing %d", d, f)
				switch d {
				case "frame":
					s.send(frames()[1], f >= 0)
				case "peer":
					if s.rs.Peer = peer2; x.Bool("none") {
						s.rs.Peer = nil
					}
				case "end":
					i = 99
				default:
					s.dtmf(d[0], f)
				}
			}
			s.rs.Close()
		})
	}
	mc.Add(&mc.Suite{Prop: "C12", Name: "characters", Bound: "all 256 characters and all 256 events, in both directions, and sent with every packet's write failing in turn",
		N: func() int64 { return 256 },
		Case: func(x *mc.X, i int64) {
			c := byte(i)
			code, ok := isDTMF(c)
			var got uint8
			var err error
			x.NoCrash("crash", func() { got, err = rtp.CharToDtmf(c) })
			x.Step(2)
			if ok && (err != nil || got != code) || !ok && err == nil {
				x.Violate("character to event", "%q: %d, %v want %d, %v", c, got, err, code, ok)
			}
			var ch byte
			x.NoCrash("crash", func() { ch, err = rtp.DtmfToChar(c) })
			want := "0123456789*#ABCD!"
			if i < 17 && (err != nil || ch != want[i]) || i > 16 && err == nil {
				x.Violate("event to character", "%d: %q, %v", i, ch, err)
			}
			if ok {
				if back, err := rtp.DtmfToChar(got); err != nil || back != c && back != c-32 {
					x.Violate("round trip", "%q: %q", c, back)
				}
			}
			x.CoverH("distinct", uint64(i))
			for f := -1; f < 10; f++ {
				session(x, func() {
					s := newStream(x, "1.2.3.4")
					s.rs.Peer = peer1
					s.dtmf(c, f)
					s.dtmf(c, -1)
					s.send(frames()[1], false)
					s.rs.Close()
				})
			}
			session(x, func() {
				s := newStream(x, "1.2.3.4")
				s.dtmf(c, -1)
				s.rs.Close()
			})
		}})
	mc.Add(&mc.Suite{Prop: "C12", Name: "digits", Bound: fmt.Sprintf("every sequence of up to %d digits (valid and invalid), frames and peer changes", mc.Pick(4, 5)), Split: 2,
		Run: func(x *mc.X) { digits(x, mc.Pick(4, 5), false) }})
	mc.Add(&mc.Suite{Prop: "C12", Name: "failing-writes", Bound: fmt.Sprintf("every sequence of up to %d digits, with the write of any one packet of each failing", mc.Pick(2, 3)), Split: 2,
		Run: func(x *mc.X) { digits(x, mc.Pick(2, 3), true) }})
	mc.Add(&mc.Suite{Prop: "C12", Name: "long", Bound: "20000 digits in a row: timestamps stay distinct",
		N: func() int64 { return 1 },
		Case: func(x *mc.X, i int64) {
			session(x, func() {
				s := newStream(x, "1.2.3.4")
				s.rs.Peer = peer1
				for k := 0; k < 20000; k++ {
					if k%1000 == 0 {
						s.w.Ops, s.seen = nil, 0
					}
					s.dtmf("0123456789*#abcdABCD!"[k%21], k%11-3)
				}
				s.rs.Close()
			})
		}})
}
