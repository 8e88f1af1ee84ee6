// Package dsph checks C15-C17: companding, mixing and comfort noise.
package dsph

import (
	"fmt"
	"math"
	"unsafe"

	"github.com/jart/gosip/dsp"

	"verif/mc/mc"
)

// g711 lists the positive mu-law decision and output values as ITU-T G.711
// defines them: 8 segments of 16 steps, on the 16-bit scale.
type step struct{ lo, hi, out int } // magnitudes lo..hi-1 quantise to out

func table() (t [128]step) {
	for seg := 0; seg < 8; seg++ {
		for q := 0; q < 16; q++ {
			size := 8 << seg
			lo := (132 << seg) - 132 + q*size
			t[seg*16+q] = step{lo - size/2, lo + size - size/2, lo}
		}
	}
	return
}

var steps = table()

// encode is the byte for a sample: the step its magnitude lies in, inverted.
func encode(s int) byte {
	m, sign := s, 0x80
	if m < 0 {
		m, sign = -m, 0
	}
	k := 127
	for i, st := range steps {
		if m < st.hi {
			k = i
			break
		}
	}
	return byte(sign | (127 - k))
}

func decode(b byte) int {
	v := steps[127-b&127].out
	if b < 128 {
		return -v
	}
	return v
}

func init() {
	mc.Add(&mc.Suite{Prop: "C15", Name: "samples", Bound: "all 65536 samples and all 256 bytes, each compared with G.711's decision and output values; neighbours for monotony",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			s := int(int16(i))
			e := dsp.LinearToUlaw(int64(s))
			x.Step(2)
			x.Checked(3)
			x.CoverH("distinct", uint64(e)<<20|uint64(i))
			if e != int64(encode(s)) {
				x.Violate("encoding", "%d: got %#x want %#x", s, e, encode(s))
			}
			d := dsp.UlawToLinear(e)
			half := int64(1)
			for seg := 7; seg >= 0; seg-- {
				if m := max(s, -s); m >= (132<<seg)-132-(4<<seg) {
					half = 4 << seg
					break
				}
			}
			if m := max(s, -s); m < 32124+512 && (d-int64(s) > half || int64(s)-d > half) {
				x.Violate("error", "%d came back as %d, more than %d away", s, d, half)
			} else if m >= 32124+512 && d != int64(math.Copysign(32124, float64(s))) {
				x.Violate("saturation", "%d came back as %d", s, d)
			}
			if s < 32767 {
				if n := dsp.UlawToLinear(dsp.LinearToUlaw(int64(s + 1))); n < d {
					x.Violate("monotony", "%d gives %d but %d gives %d", s, d, s+1, n)
				}
			}
			if i < 256 {
				b := byte(i)
				if d := dsp.UlawToLinear(i); d != int64(decode(b)) {
					x.Violate("decoding", "%#x: got %d want %d", b, d, decode(b))
				}
				if e := dsp.LinearToUlaw(dsp.UlawToLinear(i)); e != i && !(i == 0x7f && e == 0xff) {
					x.Violate("round trip", "%#x came back as %#x", i, e)
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C15", Name: "beyond", Bound: "every magnitude from 32768 to 2^20, and 2^k +- 40 for every k to 63, with both signs: saturated",
		N: func() int64 { return 1<<20 - 32768 + 64*81 },
		Case: func(x *mc.X, i int64) {
			v := i + 32768
			if i >= 1<<20-32768 {
				i -= 1<<20 - 32768
				if v = int64(uint64(1)<<(i/81)) + i%81 - 40; v < 32768 {
					x.Skip()
				}
			}
			x.Step(2)
			x.Checked(2)
			if e := dsp.LinearToUlaw(v); e != 0x80 {
				x.Violate("saturation", "%d: %#x", v, e)
			}
			if e := dsp.LinearToUlaw(-v); e != 0 {
				x.Violate("saturation", "%d: %#x", -v, e)
			}
		}})

	sat := func(a, b int16) int16 {
		s := int(a) + int(b)
		if s > 32767 {
			s = 32767
		} else if s < -32768 {
			s = -32768
		}
		return int16(s)
	}
	const guard = 24
	type arena struct {
		buf, keep []int16
		off       int
	}
	at := func(want int) *arena {
		a := &arena{buf: make([]int16, 160+2*guard+16)}
		for k := 0; k < 8; k++ {
			if int(uintptr(unsafe.Pointer(&a.buf[guard+k]))%16)/2 == want {
				a.off = guard + k
			}
		}
		for i := range a.buf {
			a.buf[i] = int16(i*1237 + 5)
		}
		return a
	}
	frame := func(a *arena) []int16 { return a.buf[a.off : a.off+160] }
	mix := func(x *mc.X, d, s *arena) {
		df, sf := frame(d), frame(s)
		d.keep, s.keep = append(d.keep[:0], d.buf...), append(s.keep[:0], s.buf...)
		dsp.L16MixSat160(&df[0], &sf[0])
		x.Step(1)
		x.Checked(160)
		for i, v := range s.buf {
			if v != s.keep[i] {
				x.Violate("source side changed", "at %d of a frame at %d", i-s.off, s.off)
			}
		}
		for i, v := range d.buf {
			w := d.keep[i]
			if k := i - d.off; k >= 0 && k < 160 {
				if w = sat(w, sf[k]); v != w {
					x.Violate("mix", "sample %d: %d + %d gave %d", k, d.keep[i], sf[k], v)
				}
			} else if v != w {
				x.Violate("memory around the frame changed", "at %d", k)
			}
		}
	}
	mc.Add(&mc.Suite{Prop: "C16", Name: "all-pairs", Bound: "all 2^32 pairs of a source and a destination sample, at positions that move with the value",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			var d, s [160 + 16]int16
			dv := int16(i)
			for v := 0; v < 65536; v += 160 {
				for k := 0; k < 160; k++ {
					d[k] = dv
					s[(k+int(i))%160] = int16(v + k)
				}
				dsp.L16MixSat160(&d[0], &s[0])
				for k := 0; k < 160; k++ {
					t := int32(dv) + int32(s[k])
					if t > 32767 {
						t = 32767
					} else if t < -32768 {
						t = -32768
					}
					if d[k] != int16(t) {
						x.Violate("mix", "sample %d: %d + %d gave %d", k, dv, s[k], d[k])
					}
				}
			}
			x.Step(410)
			x.Checked(410 * 160)
			x.CoverH("distinct", uint64(i))
		}})
	mc.Add(&mc.Suite{Prop: "C16", Name: "places", Bound: "every alignment of both frames (8x8) x every position of a sample with 9x9 extreme values among different neighbours, with the memory around both frames watched",
		N: func() int64 { return 64 * 160 },
		Case: func(x *mc.X, i int64) {
			d, s := at(int(i%8)), at(int(i/8%8))
			p := int(i / 64)
			vals := []int16{-32768, -32767, -16385, -1, 0, 1, 16384, 32766, 32767}
			for a := range vals {
				for b := range vals {
					df, sf := frame(d), frame(s)
					for k := range df {
						df[k], sf[k] = vals[(a+b+k*5)%9], vals[(a*3+k)%9]
					}
					df[p], sf[p] = vals[a], vals[b]
					mix(x, d, s)
				}
			}
			x.CoverH("distinct", uint64(i)|1<<40)
		}})
	mc.Add(&mc.Suite{Prop: "C16", Name: "repeated", Bound: "every sequence of up to 4 mixes among three frames: each result is the saturating sum of the values at that moment",
		Split: 1,
		Run: func(x *mc.X) {
			as := []*arena{at(0), at(1), at(2)}
			for k, a := range as {
				for j := range frame(a) {
					frame(a)[j] = int16((j*397 + k*9001) * (1 - 2*((j+k)%2)))
				}
			}
			for n := 0; n < 4; n++ {
				o := x.Choose(7, "mix")
				if o == 6 {
					break
				}
				d, s := o/2, (o/2+1+o%2)%3
				mix(x, as[d], as[s])
			}
			x.CoverH("distinct", mc.Hash(fmt.Sprint(as[0].buf, as[1].buf, as[2].buf)))
		}})

	// C17.
	mc.Add(&mc.Suite{Prop: "C17", Name: "seeds", Bound: "every seed class (0..259199) at 3 levels x 12 samples, with its negative and a seed of the same class",
		N: func() int64 { return 259200 },
		Case: func(x *mc.X, i int64) {
			for k, lv := range []float64{-30, 0, -62.5} {
				follow(x, "", dsp.NewAWGN_DBOV(i, lv), newRef(i, lv), 12)
				if k == 0 {
					follow(x, "", dsp.NewAWGN_DBOV(-i, lv), newRef(i, lv), 4)
					follow(x, "", dsp.NewAWGN_DBM0(i+259200*(i*i+1), lv), newRef(i, lv-6.16), 4)
				}
			}
			x.CoverH("distinct", uint64(i))
		}})
	mc.Add(&mc.Suite{Prop: "C17", Name: "levels", Bound: "every level from -120 to +40 dB in steps of 1/16 x 4 seeds x 40 samples, as dBov, dBm0 and (one seed) plain volume",
		N: func() int64 { return 160 * 16 },
		Case: func(x *mc.X, i int64) {
			lv := float64(i)/16 - 120
			for _, s := range []int64{1, 7162534, 54773, 1 << 40} {
				follow(x, "", dsp.NewAWGN_DBOV(s, lv), newRef(s, lv), 40)
				follow(x, "", dsp.NewAWGN_DBM0(s, lv), newRef(s, lv-6.16), 40)
			}
			follow(x, "", dsp.NewAWGN(lv), newRef(7162534, lv-6.16), 40)
			x.CoverH("distinct", uint64(i)|1<<40)
		}})
	mc.Add(&mc.Suite{Prop: "C17", Name: "long", Bound: fmt.Sprintf("%d samples of 16 generators", mc.Pick(400000, 20000000)),
		N: func() int64 { return 16 },
		Case: func(x *mc.X, i int64) {
			lv := []float64{-50, -10, 0, 20}[i%4]
			follow(x, "", dsp.NewAWGN_DBOV(i*7919, lv), newRef(i*7919, lv), mc.Pick(400000, 20000000))
			x.CoverH("distinct", uint64(i)|2<<40)
		}})
	mc.Add(&mc.Suite{Prop: "C17", Name: "generators", Bound: fmt.Sprintf("every sequence of %d steps (making one of 3 generators anew, or drawing from one of them)", mc.Pick(6, 8)),
		Split: 2,
		Run: func(x *mc.X) {
			var g [3]*dsp.AWGN
			var r [3]*ref
			var key []int
			for n := 0; n < mc.Pick(6, 8); n++ {
				o := x.Choose(6, "step")
				k := o % 3
				key = append(key, o)
				if o < 3 && g[k] == nil || o >= 3 {
					seed, lv := int64(k/2*5), float64(k)*-9
					g[k], r[k] = dsp.NewAWGN_DBOV(seed, lv), newRef(seed, lv)
				}
				if o < 3 {
					follow(x, fmt.Sprint(" after ", key), g[k], r[k], 1)
				}
			}
			for k := range g {
				if g[k] != nil {
					follow(x, fmt.Sprint(" after ", key), g[k], r[k], 3)
				}
			}
			x.CoverH("distinct", mc.Hash(fmt.Sprint(key)))
		}})
	mc.Add(&mc.Suite{Prop: "C17", Name: "extreme-seeds", Bound: "seeds next to both ends of the 64-bit range: the generator works and repeats itself",
		N: func() int64 { return 2000 },
		Case: func(x *mc.X, i int64) {
			s := math.MaxInt64 - i/2
			if i%2 == 1 {
				s = math.MinInt64 + i/2
			}
			a, b := dsp.NewAWGN_DBOV(s, -20), dsp.NewAWGN_DBOV(s, -20)
			for k := 0; k < 50; k++ {
				if a.Get() != b.Get() {
					x.Violate("not deterministic", "seed %d", s)
				}
			}
			x.Step(100)
		}})
}

// ref is the generator of Numerical Recipes (ran1, gasdev), as ITU test tools
// use it, scaled to a level.
type ref struct {
	x1, x2, x3 int64
	r          [97]float64
	have       bool
	next, amp  float64
}

func (g *ref) mix() float64 {
	return (float64(g.x1) + float64(g.x2)*(1.0/134456)) * (1.0 / 259200)
}

func newRef(seed int64, level float64) *ref {
	if seed < 0 {
		seed = -seed
	}
	lcg := func(v int64) int64 { return (7141*v + 54773) % 259200 }
	g := &ref{amp: math.Pow(10, level/20) * 32768}
	g.x1 = lcg((54773 + seed) % 259200)
	g.x2 = g.x1 % 134456
	g.x1 = lcg(g.x1)
	g.x3 = g.x1 % 243000
	for j := range g.r {
		g.x1 = lcg(g.x1)
		g.x2 = (8121*g.x2 + 28411) % 134456
		g.r[j] = g.mix()
	}
	return g
}

func (g *ref) uniform() float64 {
	g.x1 = (7141*g.x1 + 54773) % 259200
	g.x2 = (8121*g.x2 + 28411) % 134456
	g.x3 = (4561*g.x3 + 51349) % 243000
	j := 97 * g.x3 / 243000
	v := g.r[j]
	g.r[j] = g.mix()
	return v
}

func (g *ref) get() int16 {
	var a float64
	if g.have {
		g.have = false
		a = g.next * g.amp
	} else {
		var u, v, q float64
		for {
			u = 2*g.uniform() - 1
			v = 2*g.uniform() - 1
			if q = u*u + v*v; q < 1 {
				break
			}
		}
		f := math.Sqrt(-2 * math.Log(q) / q)
		g.have, g.next = true, u*f
		a = v * f * g.amp
	}
	switch {
	case a >= 32767:
		return 32767
	case a <= -32768:
		return -32768
	}
	return int16(a)
}

func follow(x *mc.X, key string, g *dsp.AWGN, r *ref, n int) {
	for i := 0; i < n; i++ {
		a, b := g.Get(), r.get()
		if a != b {
			x.Violate("sample"+key, "sample %d: got %d want %d", i, a, b)
		}
	}
	x.Step(n)
	x.Checked(n)
}
