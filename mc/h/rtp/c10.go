// Package rtph checks C10-C14: RTP headers, streams, DTMF, reception and ports.
package rtph

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/jart/gosip/rtp"

	"verif/mc/mc"
)

// wire is the RFC 3550 fixed header.
func wire(h rtp.Header) []byte {
	w := make([]byte, 12)
	w[0] = 2 * 64
	if h.Pad {
		w[0] += 32
	}
	w[1] = h.PT % 128
	if h.Mark {
		w[1] += 128
	}
	put := func(at, n int, v uint64) {
		for i := n - 1; i >= 0; i-- {
			w[at+i] = byte(v % 256)
			v /= 256
		}
	}
	put(2, 2, uint64(h.Seq))
	put(4, 4, uint64(h.TS))
	put(8, 4, uint64(h.Ssrc))
	return w
}

func fromWire(w []byte) (h rtp.Header) {
	h.Pad = w[0]/32%2 == 1
	h.Mark = w[1]/128 == 1
	h.PT = w[1] % 128
	for _, b := range w[2:4] {
		h.Seq = h.Seq*256 + uint16(b)
	}
	for _, b := range w[4:8] {
		h.TS = h.TS*256 + uint32(b)
	}
	for _, b := range w[8:12] {
		h.Ssrc = h.Ssrc*256 + uint32(b)
	}
	return
}

func hdrWrite(x *mc.X, h rtp.Header, buf []byte) {
	k := h
	pre := append([]byte{}, buf...)
	got := h.Write(buf)
	x.Step(1)
	x.Checked(1)
	if len(got) != len(pre)+12 || !bytes.Equal(got[:len(pre)], pre) || !bytes.Equal(got[len(pre):], wire(h)) {
		x.Violate("written header", "%+v after % x: got % x want % x % x", k, pre, got, pre, wire(k))
	}
	if h != k {
		x.Violate("header modified by writing", "%+v became %+v", k, h)
	}
	var r rtp.Header
	r = rtp.Header{Pad: true, Mark: true, PT: 99, Seq: 1, TS: 2, Ssrc: 3}
	if err := r.Read(got[len(pre):]); err != nil || r != k {
		x.Violate("not restored", "%+v read back as %+v, %v", k, r, err)
	}
}

// hdrRead reads b and judges the outcome.
func hdrRead(x *mc.X, b []byte) {
	h := rtp.Header{Pad: true, PT: 77, Seq: 0x1234, TS: 0x56789abc, Ssrc: 0xdef01234}
	old := h
	in := append(make([]byte, 0, len(b)), b...)
	var err error
	if c := x.Safe(func() { err = h.Read(in) }); c != "" {
		x.Violate("crash reading", "% x: %s", b, c)
	}
	x.Step(1)
	x.Checked(1)
	if !bytes.Equal(in, b) {
		x.Violate("bytes modified by reading", "% x became % x", b, in)
	}
	var want []error
	if len(b) < 12 {
		want = []error{rtp.ErrTruncatedPacket}
	} else {
		if b[0]/64 != 2 {
			want = append(want, rtp.ErrBadVersion)
		}
		if b[0]/16%2 == 1 {
			want = append(want, rtp.ErrExtendedHeadersNotSupported)
		}
	}
	if len(want) == 0 {
		if err != nil || h != fromWire(b) {
			x.Violate("read header", "% x: got %+v, %v want %+v", b, h, err, fromWire(b))
		}
		return
	}
	for _, w := range want {
		if errors.Is(err, w) {
			if h != old {
				x.Violate("header touched by refused packet", "% x: %+v", b, h)
			}
			return
		}
	}
	x.Violate("wrong error", "% x: got %v, %+v want %v", b, err, h, want)
}

func init() {
	fills := []byte{0x00, 0xff, 0x5a}
	mc.Add(&mc.Suite{Prop: "C10", Name: "header-values", Bound: "every value of every two bytes of the header (flags and type, sequence, timestamp, source), the rest at 3 backgrounds, appended to buffers of 5 lengths and capacities",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			var pos = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
			n := 0
			for a := 0; a < len(pos); a++ {
				for b := a + 1; b < len(pos); b++ {
					for k, f := range fills {
						w := bytes.Repeat([]byte{f}, 12)
						w[0] = 0x80 + byte(k%2)*0x20
						w[pos[a]], w[pos[b]] = byte(i), byte(i>>8)
						n++
						var buf []byte
						switch n % 5 {
						case 1:
							buf = make([]byte, 0, 1500)
						case 2:
							buf = []byte{1, 2, 3}
						case 3:
							buf = bytes.Repeat([]byte{7}, 20)[:9:13]
						case 4:
							buf = bytes.Repeat([]byte{9}, 40)[:12]
						}
						hdrWrite(x, fromWire(w), buf)
					}
				}
			}
			x.CoverH("distinct", uint64(i))
		}})
	mc.Add(&mc.Suite{Prop: "C10", Name: "payload-types", Bound: "every payload type 0..255 x padding x marker x 6 values of the other fields",
		N: func() int64 { return 256 * 4 * 6 },
		Case: func(x *mc.X, i int64) {
			v := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}[i/1024]
			h := rtp.Header{PT: uint8(i), Pad: i/256%2 == 1, Mark: i/512%2 == 1, Seq: uint16(v), TS: v, Ssrc: ^v}
			x.CoverH("distinct", mc.Hash(fmt.Sprint(h)))
			if h.PT > 127 { // more than the field holds: must not spill into the marker
				got := h.Write(nil)
				if !bytes.Equal(got, wire(h)) {
					x.Violate("payload type spills", "%+v: % x", h, got)
				}
				return
			}
			hdrWrite(x, h, nil)
		}})
	mc.Add(&mc.Suite{Prop: "C10", Name: "read", Bound: "every value of every two of the 12 bytes on 3 backgrounds; every length 0..64 and around 2048 with every first byte; trailing data",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			x.CoverH("distinct", uint64(i)|1<<32)
			for a := 0; a < 12; a++ {
				for b := a + 1; b < 12; b++ {
					for k, f := range fills {
						w := bytes.Repeat([]byte{f}, 12+k*80)
						if a != 0 {
							w[0] = 0x80 | f&0x2f
						}
						w[a], w[b] = byte(i), byte(i>>8)
						hdrRead(x, w)
					}
				}
			}
			if i < 256 {
				for n := 0; n <= 64; n++ {
					for _, f := range fills {
						w := bytes.Repeat([]byte{f}, n)
						if n > 0 {
							w[0] = byte(i)
						}
						hdrRead(x, w)
						hdrRead(x, w[:n:n])
					}
				}
				w := bytes.Repeat([]byte{0x80}, 2048)
				hdrRead(x, w[i%12:])
				hdrRead(x, nil)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C10", Name: "events", Bound: "every event x volume x flags, with 16 (thorough: 1024) durations; every duration with 16 others",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			one := func(e rtp.EventHeader) {
				k := e
				buf := bytes.Repeat([]byte{0xa5}, 8)
				e.Write(buf)
				want := []byte{k.Event, k.Volume, byte(k.Duration / 256), byte(k.Duration % 256)}
				if k.E {
					want[1] += 128
				}
				if k.R {
					want[1] += 64
				}
				x.Step(2)
				x.Checked(2)
				if !bytes.Equal(buf[:4], want) || !bytes.Equal(buf[4:], bytes.Repeat([]byte{0xa5}, 4)) || e != k {
					x.Violate("written event", "%+v: got % x want % x", k, buf, want)
				}
				r := rtp.EventHeader{Event: ^k.Event, E: !k.E, R: !k.R, Volume: 63 - k.Volume, Duration: ^k.Duration}
				r.Read(buf[:4:4])
				if r != k || !bytes.Equal(buf[:4], want) {
					x.Violate("event not restored", "%+v read back as %+v", k, r)
				}
			}
			x.CoverH("distinct", uint64(i)|2<<32)
			n := mc.Pick(16, 1024)
			for d := 0; d < n; d++ {
				one(rtp.EventHeader{Event: uint8(i), Volume: uint8(i >> 8 & 63), E: i>>14&1 == 1, R: i>>15 == 1, Duration: uint16(d * 65535 / (n - 1))})
				one(rtp.EventHeader{Event: uint8(d * 17), Volume: uint8(d * 4 % 64), E: d%2 == 1, R: d%3 == 1, Duration: uint16(i)})
			}
			one(rtp.EventHeader{Event: 5, Volume: 64 % 64, Duration: uint16(i)})
		}})
}
