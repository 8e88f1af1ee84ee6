package siph

import (
	"fmt"
	"strings"

	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// conformURI compares ParseURI with the reference machine on one input.
func conformURI(x *mc.X, s string, cv *cov) refResult {
	u, want := refURI(s, cv)
	var got *sip.URI
	var err error
	x.NoCrash("crash on "+clip([]byte(s)), func() { got, err = sip.ParseURI([]byte(s)) })
	x.Step(len(s))
	x.Checked(1)
	if (err == nil) != (want.kind == refOK) {
		x.Violate("verdict on "+clip([]byte(s)), "the grammar says %s, ParseURI says %v", kindName[want.kind], err)
	}
	if err == nil {
		if g, w := dumpURI(got), dumpURI(u); g != w {
			x.Violate("fields of "+clip([]byte(s)), "got  %s\nwant %s", g, w)
		}
	}
	return want
}

type uriPart struct {
	text string
	set  func(u *sip.URI)
	ok   bool
}

func upar(kv ...string) func(u *sip.URI) {
	return func(u *sip.URI) {
		for i := 0; i < len(kv); i += 2 {
			u.Param = &sip.URIParam{Name: kv[i], Value: kv[i+1], Next: u.Param}
		}
	}
}

func uhdr(kv ...string) func(u *sip.URI) {
	return func(u *sip.URI) {
		for i := 0; i < len(kv); i += 2 {
			u.Header = &sip.URIHeader{Name: kv[i], Value: kv[i+1], Next: u.Header}
		}
	}
}

var uriParts = func() [][]uriPart {
	nop := func(u *sip.URI) {}
	sch := func(s string) func(u *sip.URI) { return func(u *sip.URI) { u.Scheme = s } }
	usr := func(a, b string) func(u *sip.URI) { return func(u *sip.URI) { u.User, u.Pass = a, b } }
	hst := func(s string) func(u *sip.URI) { return func(u *sip.URI) { u.Host = s } }
	prt := func(n int) func(u *sip.URI) { return func(u *sip.URI) { u.Port = uint16(n) } }
	return [][]uriPart{
		{{"sip:", sch("sip"), true}, {"SIPS:", sch("sips"), true}, {"tEl:", sch("tel"), true}, {"x+1-.Y:", sch("x+1-.y"), true}, {"", nop, false}, {":", nop, false}, {"1a:", nop, false}, {"s_p:", nop, false}, {"%73ip:", nop, false}},
		{{"", nop, true}, {"bob@", usr("bob", ""), true}, {"BoB@", usr("BoB", ""), true}, {"b:p@", usr("b", "p"), true}, {"b:@", nop, false}, {"b%3a%40%00%fF:%25p@", usr("b:@\x00\xff", "%p"), true}, {"a&=+$,;?/-_.!~*'()Z9:&=+$,-_.!~*'()@", usr("a&=+$,;?/-_.!~*'()Z9", "&=+$,-_.!~*'()"), true},
			{"+%31@", usr("+1", ""), true}, {"@", nop, false}, {"b%4@", nop, false}, {"b%4g@", nop, false}, {"b%@", nop, false}, {"b:p:q@", nop, false}, {"b@c@", nop, false}, {"b:p;q@", nop, false}, {"b:p/q@", nop, false}, {"b#@", nop, false}, {"b c@", nop, false}, {"b\"@", nop, false}, {"b<@", nop, false}, {"[@", nop, false}},
		{{"h", hst("h"), true}, {"Ex-A.Mple", hst("ex-a.mple"), true}, {"10.0.0.255", hst("10.0.0.255"), true}, {"[FE80::1]", hst("fe80::1"), true}, {"[::ffff:1.2.3.4]", hst("::ffff:1.2.3.4"), true}, {"+12-3", hst("+12-3"), true}, {"", nop, false}, {"[]", nop, false}, {"[::1", nop, false}, {"::1", nop, false}, {"[::g]", nop, false}, {"[h]", nop, false}, {"h_", nop, false}, {"h%41", nop, false}, {"h ", nop, false}, {"h/", nop, false}},
		{{"", nop, true}, {":5060", prt(5060), true}, {":0", prt(0), true}, {":65535", prt(65535), true}, {":000065535", prt(65535), true}, {":65536", nop, false}, {":70596", nop, false}, {":131072", nop, false}, {":99999999999999999999", nop, false}, {":", nop, false}, {":a", nop, false}, {":5a", nop, false}, {":-1", nop, false}},
		{{"", nop, true}, {";a", upar("a", ""), true}, {";A=B", upar("A", "B"), true}, {";a=1;b;c=2;a=3", upar("a", "1", "b", "", "c", "2", "a", "3"), true}, {";a;b=1", upar("a", "", "b", "1"), true}, {";a=1;b", upar("a", "1", "b", ""), true}, {";%3b%3D=%3f%26", upar(";=", "?&"), true}, {";x[]/:&+$=[]/:&+$-_.!~*'()", upar("x[]/:&+$", "[]/:&+$-_.!~*'()"), true}, {";", nop, false}, {";a=", nop, false}, {";=b", nop, false}, {";a;;b", nop, false}, {";a==b", nop, false}, {";a=b,", nop, false}, {";a=%4", nop, false}, {";a=b c", nop, false}, {";a@", nop, false}},
		{{"", nop, true}, {"?a", uhdr("a", ""), true}, {"?A=B", uhdr("A", "B"), true}, {"?a=1&b&c=2", uhdr("a", "1", "b", "", "c", "2"), true}, {"?a&b=1", uhdr("a", "", "b", "1"), true}, {"?%26%3d=%3B%0d%0a", uhdr("&=", ";\r\n"), true}, {"?x[]/?:+$=[]/?:+$-_.!~*'()", uhdr("x[]/?:+$", "[]/?:+$-_.!~*'()"), true}, {"?", nop, false}, {"?a=", nop, false}, {"?=b", nop, false}, {"?a&&b", nop, false}, {"?a==b", nop, false}, {"?a;b", nop, false}, {"?a=b,", nop, false}, {"?a%", nop, false}},
	}
}()

func init() {
	mc.Add(&mc.Suite{Prop: "C03", Name: "every-state-words", Bound: "every state of the frozen URI machine x every word of 2 bytes (thorough: 2 bytes and one of 60 symbols)",
		N: func() int64 { return int64(len(uriWalks())) * 256 },
		Case: func(x *mc.X, i int64) {
			p := uriWalks()[i/256] + string([]byte{byte(i)})
			cv := uriDFA.newCov()
			x.CoverH("state", stateKey(conformURI(x, p, cv))|uint64(i/256)<<40)
			for b := 0; b < 256; b++ {
				q := p + string([]byte{byte(b)})
				r := conformURI(x, q, cv)
				x.CoverH("state", stateKey(r))
				if r.kind == refAt && r.off < len(p) {
					break
				}
				if mc.Thorough() && r.kind != refAt {
					for c := 32; c < 127; c++ {
						conformURI(x, q+string(rune(c)), cv)
					}
				}
			}
			for st := range uriDFA.States {
				for k := 0; k < 4; k++ {
					for b, v := 0, cv.seen[st*12+k]; b < 64; b++ {
						if v>>b&1 != 0 {
							x.CoverH("pair", uint64(st)<<16|uint64(k*64+b))
						}
					}
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C03", Name: "components", Bound: "all combinations of scheme, user and password, host, port, parameters and headers texts with their meanings written by hand; up to one broken component",
		N: func() int64 {
			n := int64(1)
			for _, p := range uriParts {
				n *= int64(len(p))
			}
			return n
		},
		Case: func(x *mc.X, i int64) {
			bad := 0
			var t string
			u := &sip.URI{}
			for _, p := range uriParts {
				c := p[i%int64(len(p))]
				i /= int64(len(p))
				t += c.text
				c.set(u)
				if !c.ok {
					if bad++; bad > 1 {
						x.Skip()
					}
				}
			}
			got, err := sip.ParseURI([]byte(t))
			x.Step(1)
			x.Checked(1)
			if bad > 0 {
				// a broken component is also fine when its text is legal elsewhere
				if err == nil && !legalAnyway(t) {
					x.Violate("accepted "+t, "a malformed URI is accepted as %s", dumpURI(got))
				}
				return
			}
			if err != nil || dumpURI(got) != dumpURI(u) {
				x.Violate("meaning of "+t, "got  %s (%v)\nwant %s", dumpURI(got), err, dumpURI(u))
			}
			x.CoverH("state", mc.Hash(t))
		}})
	mc.Add(&mc.Suite{Prop: "C03", Name: "ports", Bound: "every port 0..70000, in 3 spellings, after a name and an IPv6 address",
		N: func() int64 { return 70001 },
		Case: func(x *mc.X, i int64) {
			for _, h := range []string{"sip:h", "sip:u@[::1]"} {
				for _, f := range []string{"%s:%d", "%s:%07d;a", "%s:%d?b"} {
					t := fmt.Sprintf(f, h, i)
					u, err := sip.ParseURI([]byte(t))
					x.Step(1)
					x.Check((err == nil) == (i < 65536), "port in "+t, "%v", err)
					if err == nil {
						x.Check(int64(u.Port) == i, "port of "+t, "%d", u.Port)
					}
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C03", Name: "lookup", Bound: "parameter and header lists of up to 3 names from 6 (two differing in case only) x 8 names looked up",
		N: func() int64 { return 6*6*6 + 36 + 6 + 1 },
		Case: func(x *mc.X, i int64) {
			nm := []string{"a", "A", "bC", "lr", "transport", "ab"}
			var l []string
			switch {
			case i < 216:
				l = []string{nm[i%6], nm[i/6%6], nm[i/36]}
			case i < 252:
				l = []string{nm[i%6], nm[(i-216)/6]}
			case i < 258:
				l = []string{nm[i-252]}
			}
			var p *sip.URIParam
			var h *sip.URIHeader
			for k, n := range l { // the first of the list is looked at first
				p = &sip.URIParam{Name: l[len(l)-1-k], Value: fmt.Sprint(len(l) - 1 - k), Next: p}
				h = &sip.URIHeader{Name: l[len(l)-1-k], Value: fmt.Sprint(len(l) - 1 - k), Next: h}
				_ = n
			}
			for _, q := range []string{"a", "A", "BC", "bc", "LR", "Transport", "aB", "", "abc"} {
				want := "none"
				for k, n := range l {
					if strings.EqualFold(n, q) {
						want = fmt.Sprint(k)
						break
					}
				}
				g1, g2 := "none", "none"
				if r := p.Get(q); r != nil {
					g1 = r.Value
				}
				if r := h.Get(q); r != nil {
					g2 = r.Value
				}
				x.Step(2)
				x.Eq(g1, want, fmt.Sprintf("parameter %q in %q", q, l))
				x.Eq(g2, want, fmt.Sprintf("header %q in %q", q, l))
			}
		}})
	mc.Add(&mc.Suite{Prop: "C03", Name: "compare", Bound: "all pairs of URIs (and addresses) over 4 schemes, 4 hosts, 6 ports, 2 users, and nil",
		N: func() int64 { return 193 * 193 },
		Case: func(x *mc.X, i int64) {
			mk := func(i int64) *sip.URI {
				if i == 192 {
					return nil
				}
				u := &sip.URI{Scheme: []string{"sip", "sips", "", "tel"}[i%4], Host: []string{"a", "b", "::1", ""}[i/4%4], Port: []uint16{0, 5060, 5061, 1, 65535, 5062}[i/16%6]}
				if i/96 == 1 {
					u.User, u.Param = "u", &sip.URIParam{Name: "x"}
				}
				return u
			}
			a, b := mk(i%193), mk(i/193)
			port := func(u *sip.URI) int {
				switch {
				case u.Port != 0:
					return int(u.Port)
				case u.Scheme == "sips":
					return 5061
				}
				return 5060
			}
			want := a != nil && b != nil && a.Host == b.Host && port(a) == port(b)
			var got, got2 bool
			x.NoCrash("comparing", func() {
				got = a.CompareHostPort(b)
				got2 = (&sip.Addr{Uri: a}).CompareHostPort(&sip.Addr{Uri: b})
			})
			x.Step(2)
			x.Check(got == want && got2 == want, fmt.Sprintf("compare %s with %s", dumpURI(a), dumpURI(b)), "got %v and %v, want %v", got, got2, want)
			if a != nil {
				x.Check(int(a.GetPort()) == port(a), "GetPort of "+dumpURI(a), "%d", a.GetPort())
			}
			if i == 0 {
				var n *sip.Addr
				x.Check(!n.CompareHostPort(&sip.Addr{Uri: mk(0)}) && !(&sip.Addr{Uri: mk(0)}).CompareHostPort(n) && !n.CompareHostPort(n), "compare nil address", "")
			}
		}})
}

// legalAnyway tells whether joining the components gave another legal URI.
func legalAnyway(t string) bool {
	_, r := refURI(t, nil)
	return r.kind == refOK
}
