package rtph

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"syscall"
	"testing/synctest"

	"github.com/jart/gosip/rtp"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
	"verif/mc/shim/vrand"
)

type dgram struct {
	name string
	data []byte
	ok   bool
}

// dgrams are the datagrams that may arrive; n makes their contents differ.
func dgrams(n int) []dgram {
	pkt := func(b0, b1 byte, l int) []byte {
		p := make([]byte, l)
		for i := range p {
			p[i] = byte(i*7 + n*31 + 1)
		}
		if l > 0 {
			p[0] = b0
		}
		if l > 1 {
			p[1] = b1
		}
		return p
	}
	return []dgram{
		{"audio", pkt(0x80, 0x00, 172), true},
		{"marked, padded audio", pkt(0xa0, 0x80, 172), true},
		{"other type", pkt(0x80, 101, 172), false},
		{"short audio", pkt(0x80, 0, 171), false},
		{"version 1", pkt(0x40, 0, 172), false},
		{"extension", pkt(0x90, 0, 172), false},
		{"empty", nil, false},
		{"header only", pkt(0x80, 0, 12), false},
		{"long audio", pkt(0x80, 0, 173), false},
		{"huge", pkt(0x80, 0, 3000), false},
		{"truncated", pkt(0x80, 0, 11), false},
		{"event", pkt(0x80, 101, 16), false},
		{"other type, marked", pkt(0x80, 0x88, 172), false},
		{"exactly a buffer", pkt(0x80, 0, 2048), false},
	}
}

func decode(p []byte) (f rtp.Frame) {
	for i := range f {
		f[i] = unulaw(p[12+i])
	}
	return
}

// receiver is the reference of one session's receiving side, with an
// application that takes and hands back frames one step at a time.
type rx struct {
	x     *mc.X
	rs    *rtp.Session
	sock  *vnet.UDPConn
	queue []rtp.Frame // valid datagrams not delivered yet
	held  *rtp.Frame
	heldV rtp.Frame
	dead  bool // the socket failed
	err   error
	n     int
}

// settle waits until nothing moves.
func (r *rx) settle() { synctest.Wait(); r.x.Step(1); r.x.Checked(1) }

func (r *rx) check() {
	if r.held != nil && *r.held != r.heldV {
		r.x.Violate("frame changed while in use", "")
	}
}

// take reads C; it expects the next frame, or nothing, or the end.
func (r *rx) take() {
	r.settle()
	select {
	case f, ok := <-r.rs.C:
		switch {
		case ok && f == nil:
			r.x.Violate("nil frame", "")
		case ok && len(r.queue) == 0:
			r.x.Violate("unexpected frame", "%v", *f)
		case ok && *f != r.queue[0]:
			r.x.Violate("wrong frame", "got  %v\nwant %v", *f, r.queue[0])
		case ok:
			r.queue = r.queue[1:]
			r.held, r.heldV = f, *f
			r.x.CoverH("distinct", mc.Hash(fmt.Sprint(*f)))
		case !r.dead || len(r.queue) > 0:
			r.x.Violate("channel closed", "dead=%v, %d frames undelivered", r.dead, len(r.queue))
		}
	default:
		if len(r.queue) > 0 {
			r.x.Violate("frame not delivered", "%d waiting", len(r.queue))
		}
		if r.dead {
			r.x.Violate("channel not closed", "after the socket failed")
		}
	}
	r.settle()
	r.check()
}

func (r *rx) giveBack(fresh bool) {
	f := r.held
	r.check()
	if fresh {
		f = new(rtp.Frame)
		f[0] = 99
	}
	r.held = nil
	select {
	case r.rs.R <- f:
	default:
		r.settle()
		select {
		case r.rs.R <- f:
		default:
			r.x.Violate("frame not taken back", "")
		}
	}
	r.settle()
}

func (r *rx) inject(d dgram) {
	r.x.Logf("datagram: %s", d.name)
	r.sock.Inject(vnet.Packet{Data: d.data, Addr: peer1})
	if d.ok && !r.dead {
		r.queue = append(r.queue, decode(d.data))
	}
	r.n++
	r.settle()
	r.check()
}

// finish closes the session in the given way, from a task of its own, and
// checks that it returns, whatever is pending.
func (r *rx) finish(afterError bool, times int) {
	done := make(chan string, 1)
	go func() {
		defer func() { done <- fmt.Sprint(recover()) }()
		for i := 0; i < times; i++ {
			if afterError {
				r.rs.CloseAfterError()
			} else {
				r.rs.Close()
			}
		}
	}()
	r.settle()
	select {
	case p := <-done:
		if p != "<nil>" {
			r.x.Violate("crash on closing", "%s", p)
		}
	default:
		r.x.Violate("closing hangs", "")
	}
	if !r.sock.Closed() {
		r.x.Violate("socket not closed", "")
	}
	select {
	case e, ok := <-r.rs.E:
		if ok {
			r.x.Violate("error reported after closing", "%v", e)
		}
	default:
		r.x.Violate("error channel not closed", "")
	}
	if _, ok := <-r.rs.C; ok {
		r.x.Violate("frame after closing", "")
	}
	if r.rs.Sock != nil {
		r.x.Violate("socket kept", "")
	}
	if r.rs.Send(new(rtp.Frame)) != nil || r.rs.SendDTMF('1') != nil {
		r.x.Violate("sending after closing", "")
	}
	r.check()
}

func init() {
	mc.Add(&mc.Suite{Prop: "C13", Name: "histories", Bound: fmt.Sprintf("every history of up to %d steps out of 7 datagrams, taking a frame, handing it (or another) back, the socket failing, reading the error, closing once or twice; then closing", mc.Pick(6, 7)),
		Split: 3,
		Run: func(x *mc.X) {
			session(x, func() {
				rs, err := rtp.NewSession("1.2.3.4")
				if err != nil {
					x.Violate("no session", "%v", err)
				}
				rs.Peer = peer1
				r := &rx{x: x, rs: rs, sock: rs.Sock}
				read := false
				readErr := func() {
					for {
						r.take()
						if r.held == nil {
							break
						}
						r.giveBack(false)
					}
					select {
					case e, ok := <-rs.E:
						if !ok || !errors.Is(e, r.err) {
							x.Violate("error", "got %v want %v", e, r.err)
						}
					default:
						x.Violate("error not reported", "")
					}
					read = true
					r.settle()
					if _, ok := <-rs.E; ok {
						x.Violate("error reported twice", "")
					}
				}
				for i := 0; i < mc.Pick(6, 7); i++ {
					ds := dgrams(r.n)
					// What can happen now.
					type act struct {
						name string
						f    func()
					}
					var acts []act
					end := false
					if r.held != nil {
						acts = append(acts, act{"hand back", func() { r.giveBack(false) }}, act{"hand another back", func() { r.giveBack(true) }})
					} else if len(r.queue) > 0 || r.dead {
						acts = append(acts, act{"take", r.take})
					}
					if r.held == nil && !r.dead {
						acts = append(acts, act{"close", func() { r.finish(false, 1); end = true }}, act{"close twice", func() { r.finish(false, 2); end = true }})
					}
					if r.dead && r.held == nil && !read {
						acts = append(acts, act{"read error", readErr}, act{"close without reading the error", func() {
							if len(r.queue) > 1 {
								// The receiver still offers frames first.
								for len(r.queue) > 0 {
									r.take()
									r.giveBack(false)
								}
							}
							r.finish(false, 1)
							end = true
						}})
						if len(r.queue) == 0 {
							acts = append(acts, act{"close after error, without reading it", func() { r.finish(true, 2); end = true }})
						}
					}
					if read {
						acts = append(acts, act{"close after error", func() { r.finish(true, 2); end = true }}, act{"close", func() { r.finish(false, 1); end = true }})
					}
					if !r.dead {
						for k, n := range []string{"refused", "broken"} {
							acts = append(acts, act{n, func() {
								r.err = syscall.ECONNREFUSED
								p := vnet.Packet{Err: r.sock.Refused("read")}
								if k == 1 {
									r.err = syscall.ENETDOWN
									p.Err = r.sock.Broken("read")
								}
								r.sock.Inject(p)
								r.dead = true
								r.settle()
								r.check()
							}})
						}
						for _, d := range ds[:7] {
							acts = append(acts, act{d.name, func() { r.inject(d) }})
						}
					}
					a := acts[x.Choose(len(acts), "step")]
					x.Logf("%s", a.name)
					a.f()
					if end {
						return
					}
				}
				// End: hand back, then close whatever is pending.
				if r.held != nil {
					r.giveBack(false)
				}
				if r.dead && !read {
					readErr()
				}
				r.finish(r.dead, 2)
			})
		}})
	mc.Add(&mc.Suite{Prop: "C13", Name: "datagrams", Bound: fmt.Sprintf("every sequence of %d of 14 datagrams arriving at once or one at a time, with every frame taken at once, or held until the end", mc.Pick(4, 5)),
		Split: 2,
		Run: func(x *mc.X) {
			session(x, func() {
				rs, err := rtp.NewSession("1.2.3.4")
				if err != nil {
					x.Violate("no session", "%v", err)
				}
				r := &rx{x: x, rs: rs, sock: rs.Sock}
				prompt, fresh := x.Bool("prompt"), x.Bool("fresh")
				for i := 0; i < mc.Pick(4, 5); i++ {
					r.inject(dgrams(i)[x.Choose(14, "datagram")])
					if prompt {
						if r.take(); r.held != nil {
							r.giveBack(fresh)
						}
					}
				}
				for len(r.queue) > 0 {
					r.take()
					r.inject(dgrams(9)[8])
					r.giveBack(fresh)
				}
				r.take()
				r.finish(false, 1)
			})
		}})
	mc.Add(&mc.Suite{Prop: "C13", Name: "payload-bytes", Bound: "every payload byte at every position (256 rotations); every datagram length 0..2100; every first byte; every payload type with and without marker",
		N: func() int64 { return 256 + 2101 + 256 + 256 },
		Case: func(x *mc.X, i int64) {
			session(x, func() {
				rs, err := rtp.NewSession("1.2.3.4")
				if err != nil {
					x.Violate("no session", "%v", err)
				}
				r := &rx{x: x, rs: rs, sock: rs.Sock}
				p := append([]byte{}, dgrams(1)[0].data...)
				ok := true
				switch {
				case i < 256:
					for k := 0; k < 160; k++ {
						p[12+k] = byte(int64(k) + i)
					}
					for k := 2; k < 12; k++ {
						p[k] = byte(i)
					}
				case i < 256+2101:
					n := int(i - 256)
					p = append(p, make([]byte, 2100)...)[:n]
					ok = n == 172
				case i < 256+2101+256:
					p[0] = byte(i - 256 - 2101)
					if p[0]&15 != 0 && p[0]&0xd0 == 0x80 {
						x.Skip() // contributing sources: not settled
					}
					ok = p[0]&0xd0 == 0x80
				default:
					p[1] = byte(i - 256 - 2101 - 256)
					ok = p[1]&127 == 0
				}
				for k := 0; k < 2; k++ {
					r.inject(dgrams(3)[0])
					r.take()
					r.giveBack(false)
					r.inject(dgram{"varied", p, ok})
					if ok {
						r.take()
						r.giveBack(false)
					}
				}
				r.inject(dgrams(5)[0])
				r.take()
				r.giveBack(false)
				r.finish(false, 1)
			})
		}})
	// What a packet's header says about its place in the stream decides nothing.
	type head struct {
		b0, b1   byte
		seq      uint16
		ts, ssrc uint32
	}
	var heads []head
	for _, b0 := range []byte{0x80, 0xa0} {
		for _, b1 := range []byte{0, 0x80} {
			for _, seq := range []uint16{0, 1, 666, 65535} {
				for _, ts := range []uint32{0, 160, 1<<32 - 1} {
					for _, ssrc := range []uint32{0, 1, 1<<32 - 1} {
						heads = append(heads, head{b0: b0, b1: b1, seq: seq, ts: ts, ssrc: ssrc})
					}
				}
			}
		}
	}
	mc.Add(&mc.Suite{Prop: "C13", Name: "headers", Bound: fmt.Sprintf("every ordered pair of %d packet headers (padding flag, marker, and 0, 1, the largest and others as sequence number, timestamp and source), with sound, with silence (either zero) and with the same sound again, taken at once or both later", len(heads)),
		N: func() int64 { return int64(len(heads)) * 4 },
		Case: func(x *mc.X, i int64) {
			session(x, func() {
				rs, err := rtp.NewSession("1.2.3.4")
				if err != nil {
					x.Violate("no session", "%v", err)
				}
				r := &rx{x: x, rs: rs, sock: rs.Sock}
				sound := i % 4
				put := func(h head) {
					p := append([]byte{}, dgrams(r.n)[0].data...)
					p[0], p[1] = h.b0, h.b1
					binary.BigEndian.PutUint16(p[2:], h.seq)
					binary.BigEndian.PutUint32(p[4:], h.ts)
					binary.BigEndian.PutUint32(p[8:], h.ssrc)
					for k := range p[12:] {
						switch sound {
						case 1:
							p[12+k] = 0xff
						case 2:
							p[12+k] = 0x7f
						case 3:
							p[12+k] = byte(k * 3)
						}
					}
					r.inject(dgram{fmt.Sprintf("%+v", h), p, true})
				}
				a := heads[i/4]
				for n, b := range heads {
					put(a)
					if n%2 == 0 {
						r.take()
						r.giveBack(false)
					}
					put(b)
					for len(r.queue) > 0 {
						r.take()
						r.giveBack(false)
					}
				}
				r.take()
				r.finish(false, 1)
			})
		}})
	// A consumer task and a closing task, as applications have them.
	mc.Add(&mc.Suite{Prop: "C13", Name: "concurrent-close", Bound: fmt.Sprintf("a consumer task (each of 3 kinds) with up to %d of 3 events between which the session is closed by another task, or the socket fails, at every point", mc.Pick(5, 7)),
		Split: 2,
		Run: func(x *mc.X) {
			session(x, func() {
				rs, err := rtp.NewSession("1.2.3.4")
				if err != nil {
					x.Violate("no session", "%v", err)
				}
				r := &rx{x: x, rs: rs, sock: rs.Sock}
				kind := x.Choose(3, "consumer")
				gate := make(chan bool, 100)
				var got []rtp.Frame
				stopped := make(chan string, 1)
				go func() {
					defer func() { stopped <- fmt.Sprint(recover()) }()
					for {
						if kind == 1 {
							if _, ok := <-gate; !ok { // slow before taking
								return
							}
						}
						f, ok := <-rs.C
						if !ok {
							return
						}
						v := *f
						if kind == 2 {
							<-gate // slow while holding
						}
						if *f != v {
							v[0] ^= 1
						}
						got = append(got, v)
						rs.R <- f
					}
				}()
				var want []rtp.Frame
				closing := make(chan string, 1)
				shut := func() {
					defer func() { closing <- fmt.Sprint(recover()) }()
					rs.Close()
				}
				gates, broken := 0, false
				for i := 0; i < mc.Pick(5, 7); i++ {
					op := x.OneOf("event", "audio", "close", "gate", "fail", "other")
					x.Logf("%s", op)
					if op == "close" {
						break
					}
					switch op {
					case "audio", "other":
						if broken {
							x.Skip()
						}
						d := dgrams(i)[0]
						if op == "other" {
							d = dgrams(i)[2]
						} else {
							want = append(want, decode(d.data))
						}
						r.sock.Inject(vnet.Packet{Data: d.data, Addr: peer1})
					case "gate":
						if kind == 0 {
							x.Skip()
						}
						gate <- true
						gates++
					case "fail":
						if broken {
							x.Skip()
						}
						broken = true
						r.sock.Inject(vnet.Packet{Err: r.sock.Broken("read")})
					}
					r.settle()
				}
				go shut()
				r.settle()
				close(gate) // whatever is held is handed back now
				r.settle()
				select {
				case p := <-closing:
					if p != "<nil>" {
						x.Violate("crash on closing", "%s", p)
					}
				default:
					x.Violate("closing hangs", "")
				}
				select {
				case p := <-stopped:
					if p != "<nil>" {
						x.Violate("consumer crashed", "%s", p)
					}
				default:
					x.Violate("consumer hangs", "")
				}
				// What was delivered is a prefix of what was received.
				if len(got) > len(want) {
					x.Violate("too many frames", "%d of %d", len(got), len(want))
				}
				for i, f := range got {
					if f != want[i] {
						x.Violate("wrong frame", "number %d", i)
					}
				}
				if kind == 0 && len(got) != len(want) {
					x.Violate("frame lost", "%d of %d", len(got), len(want))
				}
				x.CoverH("distinct", mc.Hash(fmt.Sprint(got)))
			})
		}})

	// C14.
	bind := func(x *mc.X, host string, draws []uint64, errs []error, session bool) {
		w := vnet.NewWorld()
		vnet.Cur = w
		w.Host = func(n string) ([]vnet.IP, error) {
			if n == "localhost" {
				return []vnet.IP{vnet.IPv4(127, 0, 0, 1)}, nil
			}
			return nil, errors.New("no such host")
		}
		k := 0
		vrand.Use(func() uint64 { k++; return draws[(k-1)%len(draws)] })
		try := 0
		w.ListenErr = func(a string) error {
			try++
			if try-1 < len(errs) {
				return errs[try-1]
			}
			return nil
		}
		wantTry, wantErr := 1, error(nil)
		explicit := strings.Contains(host, ":") && host != "::1" && host != "fe80::1"
		if len(errs) > 0 {
			wantErr = errs[0]
		}
		if !explicit {
			for wantErr == errInUse && wantTry < 10 {
				wantErr = nil
				if wantTry < len(errs) {
					wantErr = errs[wantTry]
				}
				wantTry++
			}
		}
		bad := host == "nowhere" || host == "a:b:c" || host == "1.2.3.4:x"
		var rs *rtp.Session
		var sock vnet.PacketConn
		var err error
		x.NoCrash("crash", func() {
			if session {
				rs, err = rtp.NewSession(host)
				if rs != nil {
					sock = rs.Sock
				}
			} else {
				sock, err = rtp.Listen(host)
			}
		})
		x.Step(1)
		key := host
		if bad {
			if err == nil {
				x.Violate("bad host accepted: "+key, "")
			}
			return
		}
		x.CoverH("distinct", mc.Hash(fmt.Sprint(host, len(errs), wantTry, wantErr)))
		var binds []vnet.Op
		for _, o := range w.Snapshot() {
			if o.Kind == "listen" {
				binds = append(binds, o)
			}
		}
		if len(binds) != wantTry {
			x.Violate("attempts: "+key, "%d attempts, want %d", len(binds), wantTry)
		}
		for _, b := range binds {
			h, p, e := vnet.SplitHostPort(b.Arg)
			if explicit {
				if b.Arg != host {
					x.Violate("explicit address changed", "%q became %q", host, b.Arg)
				}
				continue
			}
			n := 0
			fmt.Sscan(p, &n)
			if e != nil || h != host && !(host == "" && (h == "0.0.0.0" || h == "::")) || n < 16384 || n > 32768 || n%2 != 0 {
				x.Violate("port or host: "+key, "bound to %q", b.Arg)
			}
		}
		if (err == nil) != (wantErr == nil) || wantErr != nil && !errors.Is(err, wantErr) {
			x.Violate("result: "+key, "got %v want %v", err, wantErr)
		}
		open := w.Open()
		if wantErr == nil && (len(open) != 1 || sock == nil || sock.(*vnet.UDPConn) != open[0]) || wantErr != nil && len(open) != 0 {
			x.Violate("sockets: "+key, "%d open", len(open))
		}
		if rs != nil {
			if _, p, _ := vnet.SplitHostPort(binds[len(binds)-1].Arg); !strings.HasSuffix(rs.Sock.LocalAddr().String(), ":"+p) && p != "0" {
				x.Violate("session's socket", "%v", rs.Sock.LocalAddr())
			}
			rs.Close()
		} else if sock != nil && err == nil {
			sock.Close()
		}
	}
	hosts := []string{"1.2.3.4", "", "localhost", "::1", "fe80::1", "1.2.3.4:5005", "[::1]:5004", ":7000", "localhost:65535", "nowhere", "a:b:c", "1.2.3.4:x", "1.2.3.4:0"}
	fail := []error{errInUse, vnet.OpErrno(syscall.EACCES), vnet.OpErrno(syscall.EADDRNOTAVAIL), vnet.OpErrno(syscall.ENETDOWN), vnet.OpErrno(syscall.EMFILE)}
	mc.Add(&mc.Suite{Prop: "C14", Name: "draws", Bound: "every 16-bit pattern at 5 positions of the random draw, and every draw below 200000, as the origin of the port",
		N: func() int64 { return 65536*5 + 200000 },
		Case: func(x *mc.X, i int64) {
			var d uint64
			if i < 65536*5 {
				d = uint64(i%65536) << []int{0, 1, 16, 32, 48}[i/65536]
			} else {
				d = uint64(i-65536*5) << 1
			}
			bind(x, "1.2.3.4", []uint64{d, ^d, d * 3}, nil, false)
			if i%64 == 0 {
				bind(x, "1.2.3.4", []uint64{d, d + 2, d + 4, d * 7, d * 11, ^d}, []error{errInUse, errInUse}, false)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C14", Name: "failures", Bound: "13 hosts x every sequence of outcomes: 0..12 ports in use, then success or one of 4 other errors; also other errors followed by ports in use; Listen and NewSession",
		N: func() int64 { return int64(len(hosts)) * 13 * 5 * 2 },
		Case: func(x *mc.X, i int64) {
			h, k, f, s := hosts[i%13], int(i/13%13), int(i/169%5), i/845 == 1
			var errs []error
			for j := 0; j < k; j++ {
				errs = append(errs, errInUse)
			}
			if f > 0 {
				errs = append(errs, fail[f])
			}
			run := func() {
				for _, d := range []uint64{0, 1 << 40, ^uint64(0), 12345678901234567, 32769 << 1, 16384 << 1} {
					bind(x, h, []uint64{d, d * 5, d * 25, d + 6, d ^ 0xffff00}, errs, s)
				}
			}
			if s {
				if x.Bubble(run) {
					x.Violate("tasks left", "host %q", h)
				}
			} else {
				run()
			}
		}})
}

var errInUse = vnet.InUse()
