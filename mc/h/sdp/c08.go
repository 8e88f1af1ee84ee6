package sdph

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/jart/gosip/sdp"

	"verif/mc/mc"
)

// judge compares the parser with the reference on one text.
func judge(x *mc.X, s string) {
	e := refParse(s)
	var got *sdp.SDP
	var err error
	if c := x.Safe(func() { got, err = sdp.Parse(s) }); c != "" {
		x.Violate("crash", "%q: %s", s, c)
	}
	x.Step(1)
	x.Checked(1)
	if e.open {
		return
	}
	if e.bad {
		x.CoverH("distinct", mc.Hash("refused "+e.why))
		if err == nil {
			x.Violate("accepted: "+e.why, "%q must be refused (%s), got %s", s, e.why, dump(got))
		}
		return
	}
	if err != nil || got == nil {
		x.Violate("refused", "%q must be accepted, got %v", s, err)
	}
	w := *e.v
	if !e.session {
		w.Session = got.Session
	}
	if !e.time {
		w.Time = got.Time
	}
	d := dump(&w)
	x.CoverH("distinct", mc.Hash(d))
	if g := dump(got); g != d {
		x.Violate("meaning", "%q\ngot  %s\nwant %s", s, g, d)
	}
}

const head = "v=0\r\n"

var lines = []string{
	"o=root 31589 31590 IN IP4 10.0.0.38", "o=- 1 2 IN IP6 dead:beef::666", "o=- 1 2 IN IP4 1.2.3.4/5", "o=- 1 2 IN IP5 1.2.3.4", "o=- 1 IN IP4 1.2.3.4",
	"c=IN IP4 10.0.0.38", "c=IN IP6 dead:beef::666", "c=IN IP4 224.0.0.1/127", "c=XX IP4 1.2.3.4", "c=IN IP4", "c=IN IP4 1.2.3.4 ",
	"s=session", "s=", "s=a b=c:d", "t=0 0", "t=1 2",
	"m=audio 30126 RTP/AVP 0 101", "m=audio 65535 RTP/SAVP 96", "m=audio 65536 RTP/AVP 0", "m=audio 1/2 RTP/AVP 18", "m=audio 5 RTP/AVP", "m=audio ", "m=audio",
	"m=video 20 UDP 31 96", "m=video 4 X 101 34", "m=image 5 udptl t38", "m=application 9 RTP/AVP 0", "m=audio 7 RTP/AVP 96 0 8 96",
	"a=rtpmap:101 telephone-event/8000", "a=rtpmap:96 opus/48000/2", "a=rtpmap:96 H264/90000", "a=rtpmap:0 L24/16000/3", "a=rtpmap:96 broken", "a=rtpmap:9 x/1", "a=rtpmap:31 /5", "a=rtpmap:bogus",
	"a=fmtp:101 0-16", "a=fmtp:96 a=b;c=d", "a=fmtp:0 x", "a=fmtp:", "a=ptime:20", "a=ptime:0", "a=ptime:x", "a=ptime:-1", "a=ptime:40",
	"a=sendrecv", "a=sendonly", "a=recvonly", "a=inactive", "a=silenceSupp:off - - - -", "a=x", "a=x:", "a=:x", "a=candidate:1 1 UDP 2 1.2.3.4 5 typ host",
	"b=AS:64", "i=info", "k=clear:x=y", "z=", "=x", "==x", "x", "", "ax", "ab=c", "v=0", "M=audio 9 RTP/AVP 0", "A=x:y", "b==", "a==x", "a= ",
}

var base = []string{"o=- 3366701332 3366701333 IN IP4 1.2.3.4", "s=-", "c=IN IP4 1.2.3.5", "t=0 0", "m=audio 32898 RTP/AVP 0 101", "a=rtpmap:101 telephone-event/8000", "a=ptime:20"}

func doc(ls ...string) string { return head + strings.Join(ls, "\r\n") + "\r\n" }

func init() {
	L := int64(len(lines))
	mc.Add(&mc.Suite{Prop: "C08", Name: "inserted-lines", Bound: fmt.Sprintf("every word of up to 3 of %d lines inserted at 5 places of a complete description", L),
		N: func() int64 { return L * L },
		Case: func(x *mc.X, i int64) {
			a, b := lines[i%L], lines[i/L]
			for _, p := range []int{0, 1, 3, 5, 7} {
				ins := func(w ...string) string {
					d := append([]string{}, base[:p]...)
					d = append(d, w...)
					return doc(append(d, base[p:]...)...)
				}
				if i < L {
					judge(x, ins(a))
				}
				judge(x, ins(a, b))
				for _, c := range lines {
					judge(x, ins(a, b, c))
				}
			}
		}})
	small := []string{"o=- 1 2 IN IP4 9.9.9.9", "o=u 3 4 IN IP6 ::1", "o=x", "c=IN IP4 1.2.3.4", "c=IN IP6 ::2", "c=x y", "m=audio 1 RTP/AVP 0", "m=video 2 RTP/AVP 31", "m=audio 3 P 96", "m=image 1 x y", "a=rtpmap:96 N/5", "a=fmtp:96 f", "a=sendonly", "a=k:v", "b=w", "s=n", "bad"}
	mc.Add(&mc.Suite{Prop: "C08", Name: "line-words", Bound: fmt.Sprintf("every word of up to %d of %d lines as a whole description", mc.Pick(4, 5), len(small)),
		Split: 2,
		Run: func(x *mc.X) {
			d := head
			for k := 0; k < mc.Pick(4, 5); k++ {
				j := x.Choose(len(small)+1, "line")
				if j == 0 {
					break
				}
				d += small[j-1] + "\r\n"
			}
			judge(x, d)
			if len(d) > 2 {
				judge(x, d[:len(d)-2])
				judge(x, d[5:])
			}
		}})
	maps := []string{"m=audio 1 A 96", "m=video 2 V 96", "m=audio 3 A 96 97 0", "m=video 4 V 97 31", "m=image 5 I 96", "a=rtpmap:96 A/1", "a=rtpmap:96 B/2/x", "a=rtpmap:97 C/3", "a=rtpmap:0 D/4", "a=fmtp:96 F", "a=fmtp:97 G", "a=fmtp:9 H", "a=rtpmap:97 bad"}
	mc.Add(&mc.Suite{Prop: "C08", Name: "mappings", Bound: fmt.Sprintf("every word of up to %d of %d media and mapping lines", mc.Pick(5, 7), len(maps)),
		Split: 2,
		Run: func(x *mc.X) {
			d := head + "o=- 1 2 IN IP4 9.9.9.9\r\nc=IN IP4 1.2.3.4\r\n"
			for k := 0; k < mc.Pick(5, 7); k++ {
				j := x.Choose(len(maps)+1, "line")
				if j == 0 {
					break
				}
				d += maps[j-1] + "\r\n"
			}
			judge(x, d)
		}})
	pts := func(i int64) string { return []string{"0", "101", "x", "256", "-1", "", "96", "007"}[i] }
	ports := []string{"0", "1", "5060", "65535", "65536", "99999999999999999999", "x", "", "-1", "+1", "1/2", "/2", "1/", "1/x", "70000/1", "0001"}
	protos := []string{"RTP/AVP", "", "x", "UDP/TLS/RTP/SAVPF"}
	mc.Add(&mc.Suite{Prop: "C08", Name: "media-lines", Bound: "every payload type 0..300 in audio and video with and without a mapping; every port, frame time, rate, channel count, version and time 0..65540, and those around each power of two up to 2^85; every combination of 16 port texts, 4 protocols and 0..3 of 8 payload texts",
		N: func() int64 { return 301 + 65541 + 16*4 },
		Case: func(x *mc.X, i int64) {
			pre := []string{"o=- 1 2 IN IP4 9.9.9.9", "c=IN IP4 1.2.3.4"}
			switch {
			case i < 301:
				for _, k := range []string{"audio", "video"} {
					for _, m := range []string{"", "a=rtpmap:%d N/7", "a=rtpmap:%d N/7/2/3", "a=rtpmap:%d /7", "a=rtpmap:%d ", "a=rtpmap:%d N", "a=rtpmap:%d N/", "a=rtpmap:%d N/x", "a=rtpmap:%d N/9999999999999999999", "a=fmtp:%d p q", "a=rtpmap:%d0 N/7", "a=rtpmap:0%d N/7", "a=rtpmap: %d N/7"} {
						if strings.Contains(m, "%") {
							m = fmt.Sprintf(m, i)
						}
						judge(x, doc(append(pre, fmt.Sprintf("m=%s 5 RTP/AVP %d", k, i), m)...))
						judge(x, doc(append(pre, m, fmt.Sprintf("m=%s 5 RTP/AVP %d %d", k, i, (i+1)%130))...))
					}
				}
			case i < 301+65541:
				judge(x, doc(append(pre, fmt.Sprintf("m=audio %d RTP/AVP 0", i-301), fmt.Sprintf("m=video %d RTP/AVP 31", 65540-(i-301)))...))
				v := fmt.Sprint(i - 301)
				if k := i - 301; k < 256 {
					// Numbers around the powers of two.
					v = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(k/3)), big.NewInt(k%3-1)).String()
				}
				judge(x, doc(append(pre, "m=audio 1 RTP/AVP 0 96", "a=ptime:"+v, "a=rtpmap:96 N/"+v, "a=rtpmap:0 PCMU/8000/"+v, "a=fmtp:96 "+v)...))
				judge(x, doc("o=- "+v+" "+v+" IN IP4 9.9.9.9", "s="+v, "c=IN IP4 "+v, "t="+v+" "+v, "m=audio 1 RTP/AVP 0", "b="+v, "a=x:"+v))
			default:
				i -= 301 + 65541
				m := "m=audio " + ports[i%16] + " " + protos[i/16]
				judge(x, doc(append(pre, m)...))
				for a := int64(0); a < 8; a++ {
					judge(x, doc(append(pre, m+" "+pts(a), "a=rtpmap:101 te/8000", "a=rtpmap:96 o/1")...))
					for b := int64(0); b < 8; b++ {
						judge(x, doc(append(pre, m+" "+pts(a)+" "+pts(b), "a=rtpmap:101 te/8000", "a=rtpmap:96 o/1")...))
						for c := int64(0); c < 8; c++ {
							judge(x, doc(append(pre, m+" "+pts(a)+" "+pts(b)+" "+pts(c), "a=rtpmap:101 te/8000", "a=rtpmap:96 o/1", "m=video 5 x 31")...))
						}
					}
				}
			}
		}})
	full := doc("o=root 31589 31590 IN IP4 10.0.0.38", "s=session", "c=IN IP4 10.0.0.39", "t=0 0", "m=audio 30126 RTP/AVP 0 101", "a=rtpmap:0 PCMU/8000", "a=rtpmap:101 telephone-event/8000/1", "a=fmtp:101 0-16", "a=ptime:20", "a=sendonly", "a=x:y", "b=AS:1", "m=video 9 V 31 96", "a=rtpmap:96 H/90000")
	mc.Add(&mc.Suite{Prop: "C08", Name: "damaged", Bound: "a complete description with every byte replaced by every value, each byte removed or doubled, each prefix and suffix, each pair of neighbours swapped, each line removed or doubled",
		N: func() int64 { return int64(len(full)) },
		Case: func(x *mc.X, i int64) {
			for b := 0; b < 256; b++ {
				judge(x, full[:i]+string([]byte{byte(b)})+full[i+1:])
				judge(x, full[:i]+string([]byte{byte(b)})+full[i:])
			}
			judge(x, full[:i]+full[i+1:])
			judge(x, full[:i])
			judge(x, full[i:])
			if i > 0 {
				judge(x, full[:i-1]+string([]byte{full[i], full[i-1]})+full[i+1:])
			}
			if full[i] == '\n' {
				st := strings.LastIndex(full[:i], "\n") + 1
				judge(x, full[:st]+full[i+1:])
				judge(x, full[:i+1]+full[st:])
			}
		}})
	sym := []string{"a", "=", ":", "/", " ", "0", "\r", "\n", "-", "\x00", "\xff", "IN", "IP4", "rtpmap:", "ptime:", "sendonly"}
	mc.Add(&mc.Suite{Prop: "C08", Name: "values", Bound: fmt.Sprintf("every word of up to %d of %d symbols as the value of each kind of line", mc.Pick(4, 5), len(sym)),
		Split: 2,
		Run: func(x *mc.X) {
			k := x.OneOf("kind", "a=", "o=", "c=", "s=", "b=", "m=audio ", "a=rtpmap:0 ", "a=fmtp:0 ", "a=ptime:", "")
			s := ""
			for n := 0; n < mc.Pick(4, 5); n++ {
				j := x.Choose(len(sym)+1, "symbol")
				if j == 0 {
					break
				}
				s += sym[j-1]
			}
			judge(x, doc(k+s, "o=- 1 2 IN IP4 9.9.9.9", "c=IN IP4 1.2.3.4", "m=audio 1 R 0"))
			judge(x, doc("o=- 1 2 IN IP4 9.9.9.9", "c=IN IP4 1.2.3.4", "m=audio 1 R 0", k+s))
		}})
	mc.Add(&mc.Suite{Prop: "C08", Name: "long", Bound: "0..300 attributes, other lines, codecs, mapping lines, media lines and value lengths, alone and together, with each kind of ending",
		N: func() int64 { return 301 * 8 },
		Case: func(x *mc.X, i int64) {
			n, k := int(i/8), i%8
			d := head + "o=- 1 2 IN IP4 9.9.9.9\r\nc=IN IP4 1.2.3.4\r\n"
			pt, late := "", ""
			for j := 0; j < n; j++ {
				switch k {
				case 0:
					d += fmt.Sprintf("a=x%d:y\r\n", j)
				case 1:
					d += fmt.Sprintf("b=x%d\r\n", j)
				case 2:
					pt += fmt.Sprintf(" %d", j%256)
					late += fmt.Sprintf("a=rtpmap:%d N%d/%d/p\r\na=fmtp:%d f%d\r\n", j%256, j, j+1, j%256, j)
				case 3:
					late += fmt.Sprintf("a=rtpmap:%d N%d/%d\r\n", 255-j%256, j, j)
				case 4:
					d += fmt.Sprintf("m=video %d V %d\r\na=rtpmap:96 N%d/5\r\n", j, 96+j%2, j)
				case 5:
					late += fmt.Sprintf("a=flag%d\r\na=f%d:\r\ni=%d\r\nbad\r\n", j, j, j)
				case 6:
					pt += " 96"
					late += "\r\n"
				case 7:
					d += fmt.Sprintf("s=%s\r\na=%s\r\n", strings.Repeat("v", j), strings.Repeat("n", j+1))
				}
			}
			judge(x, d+"m=audio 1 R"+pt+" 0\r\n"+late)
			judge(x, d+"m=audio 1 R"+pt+" 0\r\n"+late+"a=rtpmap:96 O/1\r\na=rtpmap:97 P/1")
			judge(x, "v=0\r\n"+late+d[5:]+"m=audio 1 R"+pt+" 0\r\na=rtpmap:96 O/1")
		}})
}
