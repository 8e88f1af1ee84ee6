package siph

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// total judges one call of a parser: it must not crash, must leave the input
// alone, must answer the same again, must give one of a result and an error,
// and whichever it gives must print.
func total(x *mc.X, what string, data []byte, parse func(b []byte) (show func() string, isNil bool, err error)) {
	in := append(make([]byte, 0, len(data)+8), data...)
	key := what + " " + clip(data)
	var s [2]string
	for i := 0; i < 2; i++ {
		var show func() string
		var none bool
		var err error
		if c := x.Safe(func() { show, none, err = parse(in) }); c != "" {
			x.Violate("crash: "+key, "%s", c)
		}
		x.Step(1)
		if !bytes.Equal(in, data) {
			x.Violate("input changed: "+key, "input is now %q", in)
		}
		if none == (err == nil) {
			x.Violate("both or neither: "+key, "nil result: %v, error: %v", none, err)
		}
		if c := x.Safe(func() {
			if err != nil {
				s[i] = "error " + err.Error()
			} else {
				s[i] = show()
			}
		}); c != "" {
			x.Violate("crash printing: "+key, "%s", c)
		}
		if !bytes.Equal(in, data) {
			x.Violate("input changed by printing: "+key, "input is now %q", in)
		}
	}
	x.Checked(1)
	if s[0] != s[1] {
		x.Violate("different answers: "+key, "first %s\nthen %s", s[0], s[1])
	}
}

func totalMsg(x *mc.X, data []byte) {
	total(x, "message", data, func(b []byte) (func() string, bool, error) {
		m, err := sip.ParseMsg(b)
		return func() string {
			s := m.String()
			if m.Payload != nil {
				s += m.Payload.ContentType() + string(m.Payload.Data())
			}
			_ = s + m.Copy().String()
			return dump(m)
		}, m == nil, err
	})
}

func totalURI(x *mc.X, data []byte) {
	total(x, "URI", data, func(b []byte) (func() string, bool, error) {
		u, err := sip.ParseURI(b)
		return func() string { _ = u.String(); return dumpURI(u) }, u == nil, err
	})
}

func totalSDP(x *mc.X, data []byte) {
	total(x, "SDP", data, func(b []byte) (func() string, bool, error) {
		s, err := sdp.Parse(string(b))
		return func() string { _ = s.String() + string(s.Data()) + s.ContentType(); return dumpSDP(s) }, s == nil, err
	})
}

const sdpText = "v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=x\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 40 RTP/AVP 0 101\r\na=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-16\r\na=ptime:20\r\na=x:y\r\na=sendonly\r\nb=AS:5\r\nm=video 42/2 RTP/AVP 34\r\n"

// corpus are texts using every construct, which the mutation suites start from.
var corpus = sync.OnceValue(func() []string {
	var c []string
	c = append(c, "INVITE sip:u:p@h:1;a=b?c=d SIP/2.0\r\nVia: SIP/2.0/UDP h:1;b=\"c\\d\",SIP/2.0/TCP [::1]\r\nTo: \"a\\\"\" <sip:h>;tag=\"1\"\r\n"+
		"From: Bob <sips:b%6f@[1::2]:99>,sip:h;x\r\nCall-ID: a@b\r\nCSeq: 12 INVITE\r\nMax-Forwards: 70\r\nl: 3\r\nSubject: a\r\n b\r\nX-y: z\r\nContent-Type: a/b;c=\"d\"\r\n\r\nabc")
	c = append(c, fmt.Sprintf("SIP/2.0 200 O%%4b\r\nc: application/sdp\r\nContent-Length: %d\r\nExpires: 3\r\nMin-Expires: 4\r\nk: \xc3\xa9\xe4\xb8\xad\r\n\r\n%s", len(sdpText), sdpText))
	w := getWalks()
	for i, s := range w.states {
		if i%40 == 0 {
			c = append(c, w.prefix[s]+w.suffix[s])
		}
	}
	return c
})

func init() {
	mc.Add(&mc.Suite{Prop: "C01", Name: "short-strings", Bound: "every byte string of up to 2 bytes, for each of the three parsers, and nil",
		N: func() int64 { return 1 + 256 },
		Case: func(x *mc.X, i int64) {
			f := []func(x *mc.X, d []byte){totalMsg, totalURI, totalSDP}
			if i == 0 {
				m, err := sip.ParseMsg(nil)
				x.Check(m == nil && err == nil, "nil message", "%v %v", m, err)
				u, err := sip.ParseURI(nil)
				x.Check(u == nil && err == nil, "nil URI", "%v %v", u, err)
				for _, g := range f {
					g(x, []byte{})
				}
				return
			}
			for _, g := range f {
				g(x, []byte{byte(i - 1)})
				for b := 0; b < 256; b++ {
					g(x, []byte{byte(i - 1), byte(b)})
				}
			}
			x.CoverH("distinct", uint64(i))
		}})
	mc.Add(&mc.Suite{Prop: "C01", Name: "states", Bound: "every state of the message grammar x every next byte, cut there, completed, and followed by CR, LF, blank, NUL, 0xff and a fold",
		N: func() int64 { return int64(len(getWalks().states)) * 256 },
		Case: func(x *mc.X, i int64) {
			w := getWalks()
			s := w.states[i/256]
			p := w.prefix[s] + string([]byte{byte(i)})
			totalMsg(x, []byte(p))
			for _, t := range []string{"\r", "\n", " ", "\x00", "\xff", "\r\n ", "\r\n\r\n"} {
				totalMsg(x, []byte(p+t))
			}
			totalMsg(x, []byte(w.prefix[s]+"\r"+p[len(p)-1:]+" "))
			if r := refMsg([]byte(p), nil); r.kind == refIncomplete {
				totalMsg(x, []byte(p+w.suffix[r.cs]))
				totalMsg(x, []byte(p+w.suffix[r.cs]+"rest"))
			}
			x.CoverH("distinct", uint64(i)+1<<20)
		}})
	mc.Add(&mc.Suite{Prop: "C01", Name: "damaged-messages", Bound: "every truncation of each corpus message, and every byte replaced by each of the 256 values, deleted or doubled",
		N: func() int64 {
			n := 0
			for _, c := range corpus() {
				n += len(c)
			}
			return int64(n)
		},
		Case: func(x *mc.X, i int64) {
			n := int(i)
			for _, c := range corpus() {
				if n >= len(c) {
					n -= len(c)
					continue
				}
				totalMsg(x, []byte(c[:n]))
				totalMsg(x, []byte(c[:n]+c[n+1:]))
				totalMsg(x, []byte(c[:n+1]+c[n:]))
				for b := 0; b < 256; b++ {
					totalMsg(x, []byte(c[:n]+string([]byte{byte(b)})+c[n+1:]))
				}
				break
			}
			x.CoverH("distinct", uint64(i)+2<<20)
		}})
	mc.Add(&mc.Suite{Prop: "C01", Name: "message-words", Bound: "all sequences of up to 4 (thorough: 5) of 36 message fragments",
		N: func() int64 {
			n := int64(1)
			for k := 0; k < mc.Pick(4, 5); k++ {
				n *= int64(len(frags))
			}
			return n
		},
		Case: func(x *mc.X, i int64) {
			var b strings.Builder
			for k := 0; k < mc.Pick(4, 5); k++ {
				b.WriteString(frags[i%int64(len(frags))])
				i /= int64(len(frags))
			}
			totalMsg(x, []byte(b.String()))
		}})
	mc.Add(&mc.Suite{Prop: "C01", Name: "uri-states", Bound: "every state of the URI grammar x every two next bytes (thorough: followed by each of 14 tails)",
		N: func() int64 { return int64(len(uriWalks())) * 256 },
		Case: func(x *mc.X, i int64) {
			p := uriWalks()[i/256]
			for b := 0; b < 256; b++ {
				totalURI(x, []byte(p+string([]byte{byte(i), byte(b)})))
				if mc.Thorough() {
					for _, t := range []string{"%", "%a", "%41", ":", "@h", "[", "]", "=", "&", "?", ";", "\x00", "\xff", ":99999"} {
						totalURI(x, []byte(p+string([]byte{byte(i), byte(b)})+t))
					}
				}
			}
			x.CoverH("distinct", uint64(i)+3<<20)
		}})
	mc.Add(&mc.Suite{Prop: "C01", Name: "sdp-lines", Bound: "all sequences of up to 3 (thorough: 4) of 62 well-formed and broken SDP lines, after and without the version line, with CRLF, LF and no line ends",
		N: func() int64 {
			n := int64(1)
			for k := 0; k < mc.Pick(3, 4); k++ {
				n *= int64(len(sdpLines))
			}
			return n
		},
		Case: func(x *mc.X, i int64) {
			var l []string
			for k := 0; k < mc.Pick(3, 4); k++ {
				l = append(l, sdpLines[i%int64(len(sdpLines))])
				i /= int64(len(sdpLines))
			}
			t := strings.Join(l, "\r\n")
			const head = "v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\nc=IN IP4 1.2.3.4\r\n"
			totalSDP(x, []byte(head+t+"\r\n"))
			totalSDP(x, []byte(head+t))
			totalSDP(x, []byte(head+"m=audio 4 RTP/AVP 0 101\r\n"+t+"\r\n"))
			totalSDP(x, []byte("v=0\r\n"+t+"\r\n"))
			totalSDP(x, []byte(t+"\r\n"))
			totalSDP(x, []byte(head+strings.Join(l, "\n")+"\n"))
			m := "SIP/2.0 200 OK\r\nContent-Type: application/sdp\r\n\r\n" + head + t
			totalMsg(x, []byte(m))
			x.Cover("distinct", t)
		}})
	mc.Add(&mc.Suite{Prop: "C01", Name: "damaged-sdp", Bound: "every truncation of a full SDP, and every byte replaced by each value, deleted or doubled; every line deleted or doubled",
		N: func() int64 { return int64(len(sdpText)) },
		Case: func(x *mc.X, i int64) {
			n := int(i)
			totalSDP(x, []byte(sdpText[:n]))
			totalSDP(x, []byte(sdpText[:n]+sdpText[n+1:]))
			totalSDP(x, []byte(sdpText[:n+1]+sdpText[n:]))
			totalSDP(x, []byte(sdpText[:n]+"\r\n"+sdpText[n:]))
			for b := 0; b < 256; b++ {
				totalSDP(x, []byte(sdpText[:n]+string([]byte{byte(b)})+sdpText[n+1:]))
				totalSDP(x, []byte(sdpText[:n]+string([]byte{byte(b)})+sdpText[n:]))
			}
			ls := strings.SplitAfter(sdpText, "\r\n")
			if n < len(ls) {
				totalSDP(x, []byte(strings.Join(ls[:n], "")+strings.Join(ls[n+1:], "")))
				totalSDP(x, []byte(strings.Join(ls[:n+1], "")+strings.Join(ls[n:], "")))
				for m := range ls {
					t := append([]string{}, ls...)
					t[n], t[m] = t[m], t[n]
					totalSDP(x, []byte(strings.Join(t, "")))
				}
			}
			x.CoverH("distinct", uint64(i)+4<<20)
		}})
	mc.Add(&mc.Suite{Prop: "C01", Name: "repetition", Bound: "each fragment and each SDP line repeated 1..40, 255..257, 1000 and 20000 times in place",
		N: func() int64 { return int64(len(frags) + len(sdpLines)) },
		Case: func(x *mc.X, i int64) {
			ns := []int{255, 256, 257, 1000, 20000}
			for k := 1; k <= 40; k++ {
				ns = append(ns, k)
			}
			for _, n := range ns {
				if int(i) < len(frags) {
					r := strings.Repeat(frags[i], n)
					for _, p := range []string{"", "INVITE sip:h SIP/2.0\r\n", "INVITE sip:h SIP/2.0\r\nTo: ", "INVITE sip:h SIP/2.0\r\nVia: SIP/2.0/UDP h", "SIP/2.0 200 ", "INVITE sip:h", "INVITE sip:h SIP/2.0\r\nX: "} {
						totalMsg(x, []byte(p+r))
						totalMsg(x, []byte(p+r+"\r\n\r\n"))
					}
					totalURI(x, []byte("sip:"+r))
					totalURI(x, []byte("sip:h"+r))
				} else {
					r := strings.Repeat(sdpLines[int(i)-len(frags)]+"\r\n", n)
					totalSDP(x, []byte("v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\nc=IN IP4 1.2.3.4\r\nm=audio 4 RTP/AVP 0\r\n"+r))
					totalSDP(x, []byte("v=0\r\n"+r))
				}
			}
			x.CoverH("distinct", uint64(i)+5<<20)
		}})
}

var frags = []string{
	"INVITE sip:h SIP/2.0\r\n", "SIP/2.0 200 OK\r\n", "\r\n", "\r\n ", "\r", "\n", " ", "\t", "\x00", "\xff", "\xc3\xa9", "\xe4",
	"To: ", "Via: ", "X: ", "CSeq: 1 A\r\n", "l: 5\r\n", "Content-Length: 0\r\n", "c: application/sdp\r\n", "c: a/b\r\n",
	"<", ">", "\"", "\\", ",", ";", "=", ":", "sip:h", "SIP/2.0/UDP h", "[::1]", "%", "a", "1", "65536", "@",
}

var sdpLines = []string{
	"", "a", "a=", "=", "a==", "a=:", "a=:x", "a=x", "a=x:", "a=x:y", "aa=x", "\x00=\xff", "m=", "m=audio", "m=audio ", "m=audio 4", "m=audio 4 ", "m=audio 4 RTP/AVP",
	"m=audio 4 RTP/AVP 0", "m=audio 4 RTP/AVP 96", "m=audio 4 RTP/AVP 255", "m=audio 4 RTP/AVP 256", "m=audio 4 RTP/AVP -1", "m=audio 4 RTP/AVP  0", "m=audio 65536 RTP/AVP 0", "m=audio /2 RTP/AVP 0", "m=audio 4/2 RTP/AVP 0", "m=audio 4/ RTP/AVP 0",
	"m=video 4 RTP/AVP 34", "m=video 4 RTP/AVP 96 0", "m=text 4 x 0", "a=rtpmap:", "a=rtpmap:96", "a=rtpmap:96 ", "a=rtpmap:96 x", "a=rtpmap:96 x/", "a=rtpmap:96 x/y", "a=rtpmap:96 x/8000", "a=rtpmap:96 /8000", "a=rtpmap:96 x/8000/2/3", "a=rtpmap:0 x/99999999999999999999",
	"a=fmtp:", "a=fmtp:96", "a=fmtp:96 ", "a=fmtp:96 0-16", "a=ptime:", "a=ptime:20", "a=ptime:-1", "a=ptime:99999999999999999999", "a=sendrecv", "a=sendonly", "a=recvonly",
	"c=", "c=IN IP4 1.2.3.4", "c=IN IP4", "c=IN IP9 1", "c=IN IP4 1/2", "o=", "o=- 1 2 IN IP4 1", "o=- 1 2 IN IP4 1/2", "s=", "t=",
}

// uriWalks are texts leading to every state of the URI machine, with and
// without a user part.
var uriWalks = sync.OnceValue(func() []string {
	seen := map[string]bool{}
	var out []string
	for _, at := range []string{"", "@"} {
		type st struct {
			p  string
			cs int
		}
		d := uriDFA
		start := d.Entries["uriSansUser"]
		if at != "" {
			start = d.Entries["uriWithUser"]
		}
		done := map[int]bool{start: true}
		q := []st{{"", start}}
		for len(q) > 0 {
			s := q[0]
			q = q[1:]
			if !seen[s.p+at] {
				seen[s.p+at] = true
				out = append(out, s.p)
			}
			for _, c := range byteOrder {
				to := int(d.next[s.cs][c]) - 1
				if to <= 0 || done[to] {
					continue
				}
				done[to] = true
				q = append(q, st{s.p + string([]byte{byte(c)}), to})
			}
		}
	}
	return out
})
