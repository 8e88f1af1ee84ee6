package siph

import (
	"fmt"
	"strings"

	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// conform compares ParseMsg with the reference machine on one input.
func conform(x *mc.X, data []byte, cv *cov) refResult {
	want := refMsg(data, cv)
	in := append([]byte{}, data...)
	var got *sip.Msg
	var err error
	x.NoCrash("crash on "+clip(data), func() { got, err = sip.ParseMsg(in) })
	k, off := kindOf(got, err)
	x.Step(len(data))
	if want.open {
		return want
	}
	if k != want.kind {
		x.Violate("verdict on "+clip(data), "the grammar says %s (offset %d), ParseMsg says %s (offset %d): %v", kindName[want.kind], want.off, kindName[k], off, err)
	}
	if k == refAt && off != want.off {
		x.Violate("offset on "+clip(data), "first impossible byte is at %d, reported at %d", want.off, off)
	}
	if k == refOK {
		var skip []string
		if usesL(data) {
			skip = []string{"Expires", "MaxForwards", "MinExpires"}
		}
		x.Checked(1)
		if g, w := dump(got, skip...), dump(want.msg, skip...); g != w {
			x.Violate("fields of "+clip(data), "got\n%swant\n%s", g, w)
		}
	}
	return want
}

func stateKey(r refResult) uint64 { return uint64(r.kind)<<32 | uint64(r.cs) }

func init() {
	mc.Add(&mc.Suite{Prop: "C02", Name: "every-state-every-byte",
		Bound: "each of the grammar machine's states x each of the 256 next bytes, alone, followed by the shortest completion, and with a line fold in between",
		N:     func() int64 { return int64(len(getWalks().states)) * 256 },
		Case: func(x *mc.X, i int64) {
			w := getWalks()
			s, c := w.states[i/256], byte(i%256)
			cv := msgDFA.newCov()
			p := w.prefix[s] + string([]byte{c})
			r := conform(x, []byte(p), cv)
			x.CoverH("state", stateKey(r))
			if r.kind == refIncomplete {
				r2 := conform(x, []byte(p+w.suffix[r.cs]), cv)
				x.CoverH("state", stateKey(r2))
				// the completed message with one byte too many and a truncated one
				full := p + w.suffix[r.cs]
				conform(x, []byte(full[:len(full)-1]), cv)
				conform(x, []byte(full+"x"), cv)
			}
			// a CR that a blank follows two bytes later is a fold
			for _, b := range []string{" ", "\t"} {
				q := w.prefix[s] + "\r" + string([]byte{c}) + b
				r = conform(x, []byte(q), cv)
				if r.kind == refIncomplete {
					conform(x, []byte(q+w.suffix[r.cs]), cv)
				}
			}
			for st := range msgDFA.States {
				for k := 0; k < 12; k++ {
					if v := cv.seen[st*12+k]; v != 0 {
						for b := 0; b < 64; b++ {
							if v>>b&1 != 0 {
								x.CoverH("pair", uint64(st)<<16|uint64(k*64+b))
							}
						}
					}
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C02", Name: "every-state-words",
		Bound: "each state x all words of 2 (thorough: 3) symbols, one per distinct behaviour of the state reached, then the shortest completion",
		N:     func() int64 { return int64(len(getWalks().states)) },
		Case: func(x *mc.X, i int64) {
			w := getWalks()
			depth := mc.Pick(2, 3)
			var rec func(p string, s, d int)
			rec = func(p string, s, d int) {
				for _, c := range w.class[s] {
					q := p + string([]byte{byte(c)})
					r := refMsg([]byte(q), nil)
					if d+1 < depth && r.kind == refIncomplete {
						rec(q, r.cs, d+1)
						continue
					}
					if r.kind == refIncomplete {
						q += w.suffix[r.cs]
					}
					x.CoverH("state", stateKey(conform(x, []byte(q), nil)))
				}
			}
			rec(w.prefix[w.states[i]], w.states[i], 0)
		}})
	addLines()
}

// A line is a header line with what it must do to the message.
type line struct {
	text string
	do   func(m *sip.Msg)
	l    bool // compact l
}

func params(kv ...string) *sip.Param { // in text order
	var p *sip.Param
	for i := 0; i < len(kv); i += 2 {
		p = &sip.Param{Name: kv[i], Value: kv[i+1], Next: p}
	}
	return p
}

func addAddr(f string, as ...*sip.Addr) func(m *sip.Msg) {
	return func(m *sip.Msg) {
		for _, a := range as {
			c := *a
			c.Next = nil
			*lastp(addrField(m, f)) = &c
		}
	}
}

func addVia(vs ...*sip.Via) func(m *sip.Msg) {
	return func(m *sip.Msg) {
		p := &m.Via
		for *p != nil {
			p = &(*p).Next
		}
		for _, v := range vs {
			c := *v
			c.Next = nil
			*p = &c
			p = &c.Next
		}
	}
}

// addrText pairs an address text with its meaning.
type addrText struct {
	text string
	a    *sip.Addr
}

func uri(s, user, pass, host string, port uint16) *sip.URI {
	return &sip.URI{Scheme: s, User: user, Pass: pass, Host: host, Port: port}
}

var addrTexts = func() []addrText {
	u := func() *sip.URI { return uri("sip", "", "", "h", 0) }
	up := u()
	up.Param = &sip.URIParam{Name: "lr", Next: &sip.URIParam{Name: "transport", Value: "udp"}}
	uh := u()
	uh.Header = &sip.URIHeader{Name: "b", Value: "c,d", Next: &sip.URIHeader{Name: "a", Value: "\r\n"}}
	return []addrText{
		{"<sip:h>", &sip.Addr{Uri: u()}},
		{"sip:h", &sip.Addr{Uri: u()}},
		{"sip:h;tag=1;x", &sip.Addr{Uri: u(), Param: params("tag", "1", "x", "")}},
		{"<sip:h;transport=udp;lr>", &sip.Addr{Uri: up}},
		{"<sip:h;transport=udp;lr>;tag=Z ; q = \"a,b;c\\\"d\"", &sip.Addr{Uri: up, Param: params("tag", "Z", "q", "a,b;c\"d")}},
		{"<sip:h?a=%0d%0A&b=c%2cd>", &sip.Addr{Uri: uh}},
		{"\"\" <sip:h>", &sip.Addr{Uri: u()}},
		{"\"J. \\\"Q\\\\\" <sip:h>", &sip.Addr{Uri: u(), Display: "J. \"Q\\"}},
		{"\"a, b <sip:evil>; c\"<sip:h>;p", &sip.Addr{Uri: u(), Display: "a, b <sip:evil>; c", Param: params("p", "")}},
		{"\"\xe4\xb8\xad\xc3\xa9\" <sip:h>", &sip.Addr{Uri: u(), Display: "\xe4\xb8\xad\xc3\xa9"}},
		{"\"one\r\n two\" <sip:h>", &sip.Addr{Uri: u(), Display: "one\r\n two"}},
		{"Bob <sip:h>", &sip.Addr{Uri: u(), Display: "Bob"}},
		{"Bob  Lee\r\n <sip:h>", &sip.Addr{Uri: u(), Display: "Bob  Lee"}},
		{"<SIPS:b%6fb:p%40w@H.Com:99>", &sip.Addr{Uri: uri("sips", "bob", "p@w", "h.com", 99)}},
		{"<sip:a@[fe80::1]:5061>", &sip.Addr{Uri: uri("sip", "a", "", "fe80::1", 5061)}},
		{"<tel:+1-201>", &sip.Addr{Uri: uri("tel", "", "", "+1-201", 0)}},
		{"<sip:h>;a=[::1]:5;b=x:y", &sip.Addr{Uri: u(), Param: params("a", "[::1]:5", "b", "x:y")}},
	}
}()

type viaText struct {
	text string
	v    *sip.Via
}

var viaTexts = []viaText{
	{"SIP/2.0/UDP 1.2.3.4", &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "1.2.3.4"}},
	{"SIP/2.0/UDP h:5060;branch=z9hG4bK-a", &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Port: 5060, Param: params("branch", "z9hG4bK-a")}},
	{"sip / 2.0 / tls [fe80::1] : 65535 ; a ; b = c;d=\"e \\; f\"", &sip.Via{Protocol: "sip", Version: "2.0", Transport: "tls", Host: "fe80::1", Port: 65535, Param: params("a", "", "b", "c", "d", "e ; f")}},
	{"SIP/2.0/TCP\r\n Host-1.x\r\n\t;rport;received=9.9.9.9", &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "TCP", Host: "Host-1.x", Param: params("rport", "", "received", "9.9.9.9")}},
	{"SIP/2.0/UDP h:0", &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h"}},
	{"SIP/2.0/UDP h;x=\"\"", &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Param: params("x", "")}},
}

var textVals = []string{"", "a", "a b\tc;d,e<f>\"g\"", "one\r\n two\r\n\tthree", "\xc3\xa9\xe4\xb8\xad\xf0\x9f\x98\x80", "z \t ", "(c (c)) http://x/?y=%20"}

func altCase(s string) string {
	b := []byte(s)
	for i := range b {
		if i%2 == 0 {
			b[i] = strings.ToLower(s[i : i+1])[0]
		} else {
			b[i] = strings.ToUpper(s[i : i+1])[0]
		}
	}
	return string(b)
}

func names(name, compact string) []string {
	r := []string{name, strings.ToUpper(name), strings.ToLower(name), altCase(name)}
	if compact != "" {
		r = append(r, compact, strings.ToUpper(compact))
	}
	return r
}

// fewLines covers every kind of header once or twice, allLines every spelling.
var fewLines, allLines = func() (few, all []line) {
	put := func(first bool, l line) {
		if first {
			few = append(few, l)
		}
		all = append(all, l)
	}
	for hi, h := range strHdrs {
		for ni, n := range names(h.name, h.compact) {
			if h.field == "AllowEvents" && strings.EqualFold(n, "u") {
				continue // u is Allow-Events and Allow in the grammar: known
			}
			if h.field == "Allow" && strings.EqualFold(n, "u") {
				continue
			}
			for vi, v := range textVals {
				put(ni == 0 && (vi == 1 || vi == 3 && hi%6 == 0), line{text: n + ": " + v, do: func(m *sip.Msg) { *h.get(m) = v }})
			}
			put(false, line{text: n + " \t:v", do: func(m *sip.Msg) { *h.get(m) = "v" }})
			put(false, line{text: n + ":\r\n \tv", do: func(m *sip.Msg) { *h.get(m) = "v" }})
		}
	}
	for hi, h := range addrHdrs {
		for ni, n := range names(h.name, h.compact) {
			for ai, a := range addrTexts {
				put(ni == 0 && (ai == 4 || ai == (hi*2+1)%len(addrTexts) || hi == 0), line{text: n + ": " + a.text, do: addAddr(h.field, a.a)})
				if ni == 0 {
					for bi, b := range addrTexts {
						for si, sep := range []string{",", " , ", ",\r\n "} {
							if si == 2 && a.text == "sip:h" {
								continue // known finding, see bare-address
							}
							put(bi == (ai+hi)%len(addrTexts) && si == 0 && ai%4 == 0, line{text: n + ":" + a.text + sep + b.text, do: addAddr(h.field, a.a, b.a)})
						}
					}
				}
			}
		}
	}
	for ni, n := range names("Via", "v") {
		for vi, v := range viaTexts {
			put(ni == 0 || ni == 4 && vi == 0, line{text: n + ": " + v.text, do: addVia(v.v)})
			for _, w := range viaTexts {
				for si, sep := range []string{",", " , ", ",\r\n "} {
					put(ni == 0 && si == 1 && vi == 2, line{text: n + ":" + v.text + sep + w.text, do: addVia(v.v, w.v)})
				}
			}
		}
	}
	for ni, n := range names("Call-ID", "i") {
		for _, v := range []string{"a", "a@b", "f81d4fae-7dec@[::1]", "<\"{}()>?/\\"} {
			put(ni == 0, line{text: n + ": " + v, do: func(m *sip.Msg) { m.CallID = v }})
		}
	}
	num := func(n string, v string, k int, set func(m *sip.Msg, k int)) line {
		return line{text: n + v, do: func(m *sip.Msg) { set(m, k) }}
	}
	for ni, n := range names("Max-Forwards", "") {
		put(ni == 0, num(n, ": 70", 70, func(m *sip.Msg, k int) { m.MaxForwards = k }))
		put(ni == 0, num(n, ": 0", 0, func(m *sip.Msg, k int) { m.MaxForwards = k }))
	}
	for ni, n := range names("Expires", "") {
		put(ni == 0, num(n, ": 3600", 3600, func(m *sip.Msg, k int) { m.Expires = k }))
		put(ni == 0, num(n, " :\r\n 4294967295", 4294967295, func(m *sip.Msg, k int) { m.Expires = k }))
	}
	for ni, n := range names("Min-Expires", "") {
		put(ni == 0, num(n, ":007", 7, func(m *sip.Msg, k int) { m.MinExpires = k }))
	}
	for ni, n := range names("CSeq", "") {
		put(ni == 0, line{text: n + ": 0 INVITE", do: func(m *sip.Msg) { m.CSeq, m.CSeqMethod = 0, "INVITE" }})
		put(false, line{text: n + ":4294967295 \r\n  x", do: func(m *sip.Msg) { m.CSeq, m.CSeqMethod = 4294967295, "x" }})
	}
	xh := func(name, val string) func(m *sip.Msg) {
		return func(m *sip.Msg) { m.XHeader = &sip.XHeader{Name: name, Value: []byte(val), Next: m.XHeader} }
	}
	// names that are prefixes or extensions of known ones, and unknown ones
	ext := []string{"X-Foo", "x", "Vi", "Viax", "Fro", "Fromm", "Toto", "Content-Lengt", "Content-Lengthy", "Accept-Contac", "Cal", "Call-IDs", "CSe", "CSeqs", "n", "z", "w", "1", "!%*_+`'~.", "Retry-Afte", "Retry-Aftera", "Www", "Routes", "Record-Rout", "P-Asserted-Identit", "P-Preferred-Identity", "Session-Expires", "Min-SE", "User-Agents", "Allow-Event", "Identity", "d", "j", "q", "y", "p", "h"}
	for i, n := range ext {
		for vi, v := range textVals {
			put(vi == i%3+1 && i%2 == 0, line{text: n + ": " + v, do: xh(n, v)})
		}
		put(false, line{text: n + ":v", do: xh(n, "v")})
	}
	for i, h := range strHdrs { // every truncation of every known name is an extension header
		for k := 1; k < len(h.name); k++ {
			t := h.name[:k]
			if isKnownName(t) || strings.HasSuffix(t, ":") {
				continue
			}
			put(i%9 == 0 && k == len(h.name)/2, line{text: t + ": v", do: xh(t, "v")})
		}
		put(false, line{text: h.name + "x: v", do: xh(h.name+"x", "v")})
	}
	return
}()

func isKnownName(s string) bool {
	for _, h := range strHdrs {
		if strings.EqualFold(s, h.name) || (h.compact != "" && strings.EqualFold(s, h.compact)) {
			return true
		}
	}
	for _, h := range addrHdrs {
		if strings.EqualFold(s, h.name) || (h.compact != "" && strings.EqualFold(s, h.compact)) {
			return true
		}
	}
	for _, n := range []string{"Via", "v", "Call-ID", "i", "CSeq", "Content-Length", "l", "Content-Type", "c", "Expires", "Max-Forwards", "Min-Expires"} {
		if strings.EqualFold(s, n) {
			return true
		}
	}
	return false
}

var startLines = []line{
	{text: "INVITE sip:h SIP/2.0", do: func(m *sip.Msg) { m.Method, m.Request, m.VersionMajor = "INVITE", uri("sip", "", "", "h", 0), 2 }},
	{text: "SIP/2.0 200 OK", do: func(m *sip.Msg) { m.Status, m.Phrase, m.VersionMajor = 200, "OK", 2 }},
	{text: "x!%*_+`'~-. sips:U%20:p@[::1]:1;a=b?c=d SIP/255.0", do: func(m *sip.Msg) {
		m.Method, m.VersionMajor = "x!%*_+`'~-.", 255
		m.Request = uri("sips", "U ", "p", "::1", 1)
		m.Request.Param = &sip.URIParam{Name: "a", Value: "b"}
		m.Request.Header = &sip.URIHeader{Name: "c", Value: "d"}
	}},
	{text: "SIP/7.255 699 a%20%0d%25b \xc3\xa9;/?:@&=+$,", do: func(m *sip.Msg) {
		m.Status, m.Phrase, m.VersionMajor, m.VersionMinor = 699, "a \r%b \xc3\xa9;/?:@&=+$,", 7, 255
	}},
	{text: "sIP sip:h SIP/2.0", do: func(m *sip.Msg) { m.Method, m.Request, m.VersionMajor = "sIP", uri("sip", "", "", "h", 0), 2 }},
	{text: "SIP sip:h SIP/0002.0000", do: func(m *sip.Msg) { m.Method, m.Request, m.VersionMajor = "SIP", uri("sip", "", "", "h", 0), 2 }},
}

// sameMsg checks that the text parses to exactly want.
func sameMsg(x *mc.X, text string, want *sip.Msg, skip ...string) {
	got, err := sip.ParseMsg([]byte(text))
	x.Step(1)
	x.Checked(1)
	if err != nil || got == nil {
		x.Violate("refused "+clip([]byte(text)), "a grammatical message is refused: %v", err)
	}
	if g, w := dump(got, skip...), dump(want, skip...); g != w {
		x.Violate("meaning of "+clip([]byte(text)), "text %q\ngot\n%swant\n%s", text, g, w)
	}
	x.CoverH("state", mc.Hash(dump(want)))
}

func refused(x *mc.X, text, why string) {
	got, err := sip.ParseMsg([]byte(text))
	x.Step(1)
	x.Checked(1)
	if err == nil {
		x.Violate("accepted "+clip([]byte(text)), "%s, yet it is accepted as\n%s", why, dump(got))
	}
}

func addLines() {
	mc.Add(&mc.Suite{Prop: "C02", Name: "every-spelling",
		Bound: "every header line spelling (names in 4 cases and compact, all element texts, folds) x every start line, with expected fields written by hand",
		N:     func() int64 { return int64(len(allLines) * len(startLines)) },
		Case: func(x *mc.X, i int64) {
			l, s := allLines[i/int64(len(startLines))], startLines[i%int64(len(startLines))]
			m := &sip.Msg{}
			s.do(m)
			l.do(m)
			sameMsg(x, s.text+"\r\n"+l.text+"\r\n\r\n", m)
		}})
	mc.Add(&mc.Suite{Prop: "C02", Name: "header-sequences",
		Bound: "all ordered sequences of 2 (thorough: 3) of the representative header lines after a request or status line",
		N: func() int64 {
			n := int64(len(fewLines))
			if mc.Thorough() {
				return n * n * n * 2
			}
			return n * n * 2
		},
		Case: func(x *mc.X, i int64) {
			n := int64(len(fewLines))
			s := startLines[i%2]
			i /= 2
			m := &sip.Msg{}
			s.do(m)
			text := s.text + "\r\n"
			cseq := 0
			k := mc.Pick(2, 3)
			for j := 0; j < k; j++ {
				l := fewLines[i%n]
				i /= n
				if strings.HasPrefix(l.text, "CSeq") {
					if cseq++; cseq > 1 {
						x.Skip() // at most one CSeq line
					}
				}
				l.do(m)
				text += l.text + "\r\n"
			}
			sameMsg(x, text+"\r\n", m)
		}})
	type body struct {
		hdr  string
		body string
		ok   bool
		t, d string // expected payload
	}
	var bodies []body
	for _, n := range []string{"Content-Length", "CONTENT-LENGTH", "l", "L"} {
		for _, tn := range []string{"Content-Type", "c", "C"} {
			for _, b := range []string{"a", "ab\r\n\r\nc", "\x00\xff\r\n", strings.Repeat("x", 300)} {
				for d := -1; d <= 1; d++ {
					k := len(b) + d
					if k == 0 {
						continue
					}
					h := fmt.Sprintf("%s: text/plain\r\n%s: %d\r\n", tn, n, k)
					bodies = append(bodies, body{h, b, d == 0, "text/plain", b})
					h = fmt.Sprintf("%s: %03d\r\n%s: a/b ; c = d;e=\"f\"\r\n", n, k, tn)
					bodies = append(bodies, body{h, b, d == 0, "a/b", b})
				}
			}
			bodies = append(bodies, body{n + ": 0\r\n", "", true, "", ""})
			bodies = append(bodies, body{n + ": 0\r\n" + tn + ": a/b\r\n", "", true, "", ""})
			bodies = append(bodies, body{n + ": 1\r\n" + tn + ": a/b\r\n", "", false, "", ""})
			bodies = append(bodies, body{n + ": 4294967296\r\n" + tn + ": a/b\r\n", "", false, "", ""})
			bodies = append(bodies, body{n + ": 18446744073709551617\r\n" + tn + ": a/b\r\n", "x", false, "", ""})
		}
	}
	bodies = append(bodies, body{"", "", true, "", ""})
	bodies = append(bodies, body{"Content-Type: a/b\r\n", "", true, "", ""})
	bodies = append(bodies, body{"Content-Type: a/b\r\n", "rest\r\n of it\x00", true, "a/b", "rest\r\n of it\x00"})
	bodies = append(bodies, body{"c: a/b\r\n", "\r\n", true, "a/b", "\r\n"})
	mc.Add(&mc.Suite{Prop: "C02", Name: "bodies", Bound: "Content-Length (absent, short, exact, long, overflowing, both spellings and orders) x Content-Type x bodies x start lines x every header line between",
		N: func() int64 { return int64(len(bodies) * len(startLines) * len(fewLines)) },
		Case: func(x *mc.X, i int64) {
			l := fewLines[i%int64(len(fewLines))]
			i /= int64(len(fewLines))
			b, s := bodies[i/int64(len(startLines))], startLines[i%int64(len(startLines))]
			text := s.text + "\r\n" + l.text + "\r\n" + b.hdr + "\r\n" + b.body
			if !b.ok {
				refused(x, text, "Content-Length does not match the body")
				return
			}
			m := &sip.Msg{}
			s.do(m)
			l.do(m)
			if b.t != "" {
				m.Payload = &sip.MiscPayload{T: b.t, D: []byte(b.d)}
			}
			if usesL([]byte(text)) {
				sameMsg(x, text, m, "Expires", "MaxForwards", "MinExpires")
			} else {
				sameMsg(x, text, m)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C02", Name: "numbers", Bound: "every numeric field x boundary values around its limit, with leading zeros and up to 40 digits",
		N: func() int64 { return 1 },
		Case: func(x *mc.X, _ int64) {
			type f struct {
				pre, post string
				max       uint64
				set       func(m *sip.Msg, v uint64)
			}
			via := func(m *sip.Msg, v uint64) {
				m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Port: uint16(v)}
			}
			const s = "INVITE sip:h SIP/2.0\r\n"
			fs := []f{
				{s + "Max-Forwards: ", "\r\n\r\n", 1<<32 - 1, func(m *sip.Msg, v uint64) { m.MaxForwards = int(v) }},
				{s + "Expires: ", "\r\n\r\n", 1<<32 - 1, func(m *sip.Msg, v uint64) { m.Expires = int(v) }},
				{s + "Min-Expires: ", "\r\n\r\n", 1<<32 - 1, func(m *sip.Msg, v uint64) { m.MinExpires = int(v) }},
				{s + "CSeq: ", " X\r\n\r\n", 1<<32 - 1, func(m *sip.Msg, v uint64) { m.CSeq, m.CSeqMethod = int(v), "X" }},
				{s + "Via: SIP/2.0/UDP h:", "\r\n\r\n", 65535, via},
				{s + "Via: SIP/2.0/UDP h:", ";a\r\n\r\n", 65535, func(m *sip.Msg, v uint64) { via(m, v); m.Via.Param = params("a", "") }},
				{s + "To: <sip:h:", ">\r\n\r\n", 65535, func(m *sip.Msg, v uint64) { m.To = &sip.Addr{Uri: uri("sip", "", "", "h", uint16(v))} }},
				{s + "To: sip:h:", "\r\n\r\n", 65535, func(m *sip.Msg, v uint64) { m.To = &sip.Addr{Uri: uri("sip", "", "", "h", uint16(v))} }},
			}
			vals := map[string]uint64{}
			for _, v := range []uint64{0, 1, 9, 10, 99, 100, 254, 255, 256, 65534, 65535, 65536, 65537, 99999, 100000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
				vals[fmt.Sprint(v)] = v
				vals[fmt.Sprintf("%040d", v)] = v
			}
			vals["18446744073709551616"] = 1<<64 - 1
			vals["18446744073709551617"] = 1<<64 - 1
			vals["9999999999999999999999999999999999999999"] = 1<<64 - 1
			vals["4294967296000000000000000000000005060"] = 1<<64 - 1
			for _, g := range fs {
				for _, t := range sortedKeys(vals) {
					v := vals[t]
					if v > g.max {
						refused(x, g.pre+t+g.post, "number too large")
						continue
					}
					m := &sip.Msg{}
					startLines[0].do(m)
					g.set(m, v)
					sameMsg(x, g.pre+t+g.post, m)
				}
			}
			for a := 0; a < 300; a++ {
				for _, b := range []int{0, 1, 2, 255, 256, 300, 512, 1000, 65536} {
					m := &sip.Msg{Method: "A", Request: uri("sip", "", "", "h", 0), VersionMajor: uint8(a), VersionMinor: uint8(b)}
					t := fmt.Sprintf("A sip:h SIP/%d.%d\r\n\r\n", a, b)
					r := fmt.Sprintf("SIP/%d.%d 200 OK\r\n\r\n", a, b)
					if a > 255 || b > 255 {
						refused(x, t, "version too large")
						refused(x, r, "version too large")
						continue
					}
					sameMsg(x, t, m)
					sameMsg(x, r, &sip.Msg{Status: 200, Phrase: "OK", VersionMajor: uint8(a), VersionMinor: uint8(b)})
				}
			}
			for st := 1; st < 1000; st++ {
				sameMsg(x, fmt.Sprintf("SIP/2.0 %03d z\r\n\r\n", st), &sip.Msg{Status: st, Phrase: "z", VersionMajor: 2})
				refused(x, fmt.Sprintf("SIP/2.0 %d z\r\n\r\n", st+1000), "status code of four digits")
			}
		}})
	mc.Add(&mc.Suite{Prop: "C02", Name: "bare-address", Bound: "an address without angle brackets followed by a separator and blanks",
		N: func() int64 { return 4 },
		Case: func(x *mc.X, i int64) {
			h := []string{"sip:h, sip:i", "sip:h; tag=1", "sip:h,\r\n sip:i", "sip:h;\r\n tag=1"}[i]
			m := &sip.Msg{}
			startLines[0].do(m)
			m.To = &sip.Addr{Uri: uri("sip", "", "", "h", 0)}
			if i%2 == 0 {
				m.To.Next = &sip.Addr{Uri: uri("sip", "", "", "i", 0)}
			} else {
				m.To.Param = params("tag", "1")
			}
			sameMsg(x, "INVITE sip:h SIP/2.0\r\nTo: "+h+"\r\n\r\n", m)
		}})
	mc.Add(&mc.Suite{Prop: "C02", Name: "compact-l", Bound: "the compact Content-Length name alone sets the content length alone",
		N: func() int64 { return 3 },
		Case: func(x *mc.X, i int64) {
			text := "INVITE sip:h SIP/2.0\r\nc: a/b\r\nl: 3\r\n\r\nabc"
			f := []string{"Expires", "MaxForwards", "MinExpires"}[i]
			got, err := sip.ParseMsg([]byte(text))
			if err != nil {
				x.Violate("refused", "%v", err)
			}
			v := []int{got.Expires, got.MaxForwards, got.MinExpires}[i]
			x.Check(v == 0, "compact header l also sets "+f, "%q: %s is %d although no such header is present", text, f, v)
		}})
}
