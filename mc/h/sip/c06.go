package siph

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

func tokc(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || strings.IndexByte("-.!%*_+`'~", c) >= 0
}

// representable is the longest prefix of s a quoted string can carry: 7-bit
// bytes but for line ends that are no fold, folds, and valid UTF-8.
func representable(s string) string {
	for i := 0; i < len(s); {
		if s[i] == '\r' {
			if i+2 < len(s) && s[i+1] == '\n' && (s[i+2] == ' ' || s[i+2] == '\t') {
				i += 3
				continue
			}
			return s[:i]
		}
		if s[i] == '\n' {
			return s[:i]
		}
		if s[i] < 0x80 {
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			return s[:i]
		}
		i += n
	}
	return s
}

func tokens(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if tokc(s[i]) {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// headerNames splits the head of a message the way a strict receiver does and
// refuses line ends that are neither CRLF nor folds.
func headerNames(text string) (start string, names []string, body string, bad string) {
	head, body, ok := strings.Cut(text, "\r\n\r\n")
	if !ok {
		return "", nil, "", "no empty line"
	}
	un := strings.NewReplacer("\r\n ", "  ", "\r\n\t", "  ").Replace(head)
	ls := strings.Split(un, "\r\n")
	for _, l := range ls {
		if strings.ContainsAny(l, "\r\n") {
			bad = "a bare CR or LF"
		}
	}
	for _, l := range ls[1:] {
		n, _, ok := strings.Cut(l, ":")
		if !ok {
			bad = "a line without a name"
		}
		names = append(names, strings.TrimSpace(n))
	}
	return ls[0], names, body, bad
}

// place is somewhere text can be put.
type place struct {
	name string
	put  func(m *sip.Msg, s string)
	want func(s string) string // what comes back
	ok   func(s string) bool   // whether there is something to carry
}

var places = func() []place {
	any := func(string) bool { return true }
	same := func(s string) string { return s }
	hasTok := func(s string) bool { return tokens(s) != "" }
	return []place{
		{"display name", func(m *sip.Msg, s string) { m.To.Display = s }, representable, any},
		{"display name in a list", func(m *sip.Msg, s string) { m.Contact.Next.Display = s }, representable, any},
		{"address parameter value", func(m *sip.Msg, s string) { m.To.Param.Value = s }, representable, any},
		{"Via parameter value", func(m *sip.Msg, s string) { m.Via.Param.Value = s }, representable, any},
		{"inner parameter value in a list", func(m *sip.Msg, s string) { m.Contact.Param.Next.Value = s }, representable, any},
		{"address parameter name", func(m *sip.Msg, s string) { m.To.Param.Name = s }, tokens, hasTok},
		{"Via parameter name", func(m *sip.Msg, s string) { m.Via.Param.Next.Name = s }, tokens, hasTok},
		{"reason phrase", func(m *sip.Msg, s string) {
			m.Method, m.Request, m.MaxForwards = "", nil, 0
			m.Status, m.Phrase = 200, s
		}, same, func(s string) bool { return s != "" }},
		{"extension header name", func(m *sip.Msg, s string) { m.XHeader.Name = "X-" + s }, func(s string) string { return "X-" + tokens(s) }, any},
	}
}()

func c06Base() *sip.Msg {
	return &sip.Msg{VersionMajor: 2, Method: "X", Request: uri("sip", "", "", "h", 0), MaxForwards: 70, CallID: "c", CSeq: 1, CSeqMethod: "X", Subject: "s",
		From: &sip.Addr{Uri: uri("sip", "", "", "f", 0)}, To: &sip.Addr{Uri: uri("sip", "", "", "t", 0), Param: params("b", "2", "a", "1")},
		Contact: &sip.Addr{Uri: uri("sip", "", "", "c", 0), Param: params("z", "3", "y", "4"), Next: &sip.Addr{Uri: uri("sip", "", "", "d", 0)}},
		Via:     &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "v", Param: params("b", "2", "a", "1"), Next: &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "w"}},
		XHeader: &sip.XHeader{Name: "X-a", Value: []byte("v"), Next: &sip.XHeader{Name: "X-b", Value: []byte("w")}},
		Payload: &sip.MiscPayload{T: "a/b", D: []byte("body")}}
}

// contain judges one text in one place.
func contain(x *mc.X, p place, s string) {
	key := fmt.Sprintf("%s %q", p.name, s)
	m := c06Base()
	p.put(m, s)
	var text string
	x.NoCrash("crash writing: "+key, func() { text = m.String() })
	x.Step(1)
	h := c06Base()
	p.put(h, "x")
	_, wn, wb, _ := headerNames(h.String())
	st, n, b, bad := headerNames(text)
	if bad != "" {
		x.Violate("broken line structure: "+key, "%s in %q", bad, text)
	}
	if p.name == "extension header name" {
		for i := range wn {
			if wn[i] == "X-x" {
				wn[i] = p.want(s)
			}
		}
	}
	x.Eq(fmt.Sprint(n), fmt.Sprint(wn), "other header lines: "+key)
	x.Eq(b, wb, "body: "+key)
	if p.name == "reason phrase" {
		x.Check(strings.HasPrefix(st, "SIP/2.0 200 ") && !strings.ContainsAny(st, "\r\n\x00"), "status line: "+key, "%q", st)
	}
	x.CoverH("distinct", mc.Hash(text))
	if !p.ok(s) {
		return
	}
	got, err := sip.ParseMsg([]byte(text))
	x.Step(1)
	if err != nil {
		if p.name == "reason phrase" && !utf8.ValidString(s) {
			return // not text: the grammar wants UTF-8 there
		}
		x.Violate("written message refused: "+key, "%q: %v", text, err)
	}
	w := c06Base()
	p.put(w, p.want(s))
	if p.name == "extension header name" {
		w.XHeader.Name = p.want(s)
	}
	x.Eq(dump(got), dump(w), "read back: "+key)
}

var textSpecial = []byte("\"\\\r\n \t,;<>:=a%\x00\x7f\xc3\xa9\xff")

func init() {
	mc.Add(&mc.Suite{Prop: "C06", Name: "two-bytes", Bound: "every string of up to 2 bytes in each of 9 places",
		N: func() int64 { return int64(len(places)) * 257 },
		Case: func(x *mc.X, i int64) {
			p := places[i/257]
			if i%257 == 256 {
				contain(x, p, "")
				return
			}
			contain(x, p, string([]byte{byte(i % 257)}))
			for b := 0; b < 256; b++ {
				contain(x, p, string([]byte{byte(i % 257), byte(b)}))
			}
		}})
	mc.Add(&mc.Suite{Prop: "C06", Name: "special-words", Bound: "every word of 3 and 4 (thorough: 5) of 19 special bytes in each place",
		N: func() int64 { n := int64(len(textSpecial)); return int64(len(places)) * n * n },
		Case: func(x *mc.X, i int64) {
			n := int64(len(textSpecial))
			p := places[i/n/n]
			w := string([]byte{textSpecial[i%n], textSpecial[i/n%n]})
			for _, a := range textSpecial {
				s := w + string([]byte{a})
				contain(x, p, s)
				for _, b := range textSpecial {
					t := s + string([]byte{b})
					contain(x, p, t)
					if mc.Thorough() {
						for _, c := range textSpecial {
							contain(x, p, t+string([]byte{c}))
						}
					}
				}
			}
		}})
	ws := []string{"\r\n", "\r\n ", "\r\n\t", "\r\n\r\n", "\r\nEvil: 1", "\"", "\\\"", "\" <sip:e>;x=\"", ", <sip:e>", ";e=1", " ", "a", "b c", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xe4\xb8", "\xc0\x80", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80", "%0d%0a", "Content-Length: 0", "\x00", "\x7f", "\\", "<", ">"}
	mc.Add(&mc.Suite{Prop: "C06", Name: "phrases", Bound: "every sequence of 3 (thorough: 4) of 27 fragments (line ends, folds, quotes, injected headers and addresses, UTF-8 of 2, 3, 4 bytes, truncated, overlong, surrogate) in each place; each repeated up to 1000 times",
		N: func() int64 { n := int64(len(ws)); return int64(len(places)) * n * n * n },
		Case: func(x *mc.X, i int64) {
			n := int64(len(ws))
			p := places[i/n/n/n]
			s := ws[i%n] + ws[i/n%n] + ws[i/n/n%n]
			contain(x, p, s)
			if mc.Thorough() {
				for _, w := range ws {
					contain(x, p, s+w)
				}
			}
			if i/n%n == 0 && i/n/n%n == 0 {
				contain(x, p, strings.Repeat(ws[i%n], 1000))
				contain(x, p, strings.Repeat("a", 1000)+ws[i%n])
			}
		}})
	mc.Add(&mc.Suite{Prop: "C06", Name: "pairs-of-places", Bound: "every pair of places x every pair of fragments",
		N: func() int64 { n := int64(len(places)); return n * n * int64(len(ws)*len(ws)) },
		Case: func(x *mc.X, i int64) {
			n := int64(len(places))
			p, q := places[i%n], places[i/n%n]
			i /= n * n
			s, t := ws[i%int64(len(ws))], ws[i/int64(len(ws))]
			if p.name == q.name || !p.ok(s) || !q.ok(t) {
				x.Skip()
			}
			m, w := c06Base(), c06Base()
			p.put(m, s)
			q.put(m, t)
			p.put(w, p.want(s))
			q.put(w, q.want(t))
			for _, r := range []struct {
				p place
				s string
			}{{p, s}, {q, t}} {
				if r.p.name == "extension header name" {
					w.XHeader.Name = r.p.want(r.s)
				}
				if r.p.name == "reason phrase" && !utf8.ValidString(r.s) {
					x.Skip()
				}
			}
			key := fmt.Sprintf("%s %q and %s %q", p.name, s, q.name, t)
			got, err := sip.ParseMsg([]byte(m.String()))
			x.Step(2)
			if err != nil {
				x.Violate("written message refused: "+key, "%q: %v", m.String(), err)
			}
			x.Eq(dump(got), dump(w), "read back: "+key)
		}})
}
