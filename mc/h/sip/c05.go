package siph

import (
	"fmt"

	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// comp sets one escapable component of a URI.
type comp struct {
	name  string
	empty bool // may be empty
	set   func(u *sip.URI, s string)
}

var comps = []comp{
	{"user", false, func(u *sip.URI, s string) { u.User = s }},
	{"password", true, func(u *sip.URI, s string) {
		if u.Pass = s; u.User == "" {
			u.User = "u"
		}
	}},
	{"parameter name", false, func(u *sip.URI, s string) { u.Param = &sip.URIParam{Name: s, Value: "v", Next: u.Param} }},
	{"parameter value", true, func(u *sip.URI, s string) { u.Param = &sip.URIParam{Name: "n", Value: s, Next: u.Param} }},
	{"header name", false, func(u *sip.URI, s string) { u.Header = &sip.URIHeader{Name: s, Value: "v", Next: u.Header} }},
	{"header value", true, func(u *sip.URI, s string) { u.Header = &sip.URIHeader{Name: "n", Value: s, Next: u.Header} }},
	{"flag name", false, func(u *sip.URI, s string) { u.Param = &sip.URIParam{Name: s, Next: u.Param} }},
	{"header flag name", false, func(u *sip.URI, s string) { u.Header = &sip.URIHeader{Name: s, Next: u.Header} }},
}

// uriBack checks that a URI comes back, alone, in an address with display name
// and parameters, in an address list and as a request URI.
func uriBack(x *mc.X, u *sip.URI, key string, all bool) {
	want := dumpURI(u)
	var s string
	x.NoCrash("crash writing: "+key, func() { s = u.String() })
	got, err := sip.ParseURI([]byte(s))
	x.Step(2)
	if err != nil {
		x.Violate("written URI refused: "+key, "%q: %v", s, err)
	}
	x.Eq(dumpURI(got), want, "alone: "+key)
	x.CoverH("distinct", mc.Hash(s))
	if !all {
		return
	}
	a := &sip.Addr{Uri: u, Display: "A \"q\"", Param: params("tag", "t", "x", "y z")}
	b := &sip.Addr{Uri: uri("sip", "", "", "other", 0), Param: params("tag", "t2")}
	a.Next = b
	m := &sip.Msg{Method: "X", Request: u, From: b, To: a, CallID: "c", CSeq: 1, CSeqMethod: "X", Contact: &sip.Addr{Uri: u}, Route: &sip.Addr{Uri: u, Next: &sip.Addr{Uri: u, Param: params("lr", "")}}}
	text := m.String()
	r, err := sip.ParseMsg([]byte(text))
	x.Step(2)
	if err != nil {
		x.Violate("written message refused: "+key, "%q: %v", text, err)
	}
	if r.Request == nil || dumpURI(r.Request) != want {
		x.Violate("request URI: "+key, "got %s want %s", dumpURI(r.Request), want)
	}
	x.Eq(dumpAddrs(r.To), dumpAddrs(a), "in an address: "+key)
	x.Eq(dumpAddrs(r.Contact), dumpAddrs(m.Contact), "in a plain address: "+key)
	x.Eq(dumpAddrs(r.Route), dumpAddrs(m.Route), "in a route: "+key)
	x.Eq(dumpAddrs(r.From), dumpAddrs(b), "the other address: "+key)
}

var uriSpecial = []byte("%:@;?&=/+,<>\"#[ \r\n\x00\x80\xffaA1")

func init() {
	base := func(h int64) *sip.URI {
		return []*sip.URI{{Scheme: "sip", Host: "h"}, {Scheme: "sips", Host: "fe80::1", Port: 5061}, {Scheme: "sip", Host: "1.2.3.4", Port: 1}}[h]
	}
	mc.Add(&mc.Suite{Prop: "C05", Name: "two-bytes", Bound: "every string of 1 or 2 bytes in each component, alone; strings of 1 byte also in addresses and messages",
		N: func() int64 { return int64(len(comps)) * 256 },
		Case: func(x *mc.X, i int64) {
			c, b := comps[i/256], byte(i)
			for h := int64(0); h < 3; h++ {
				u := base(h)
				c.set(u, string([]byte{b}))
				uriBack(x, u, fmt.Sprintf("%s %q on %d", c.name, b, h), true)
			}
			for d := 0; d < 256; d++ {
				u := base(0)
				s := string([]byte{b, byte(d)})
				c.set(u, s)
				uriBack(x, u, fmt.Sprintf("%s %q", c.name, s), mc.Thorough() || b < 48 || b > 126)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C05", Name: "pairs-of-components", Bound: "every pair of bytes in every ordered pair of components",
		N: func() int64 { return int64(len(comps)*len(comps)) * 256 },
		Case: func(x *mc.X, i int64) {
			c, e := comps[i/256%int64(len(comps))], comps[i/256/int64(len(comps))]
			if c.name == e.name && c.name[0] != 'p' && c.name[0] != 'h' && c.name[0] != 'f' {
				x.Skip()
			}
			for d := 0; d < 256; d++ {
				u := base(0)
				c.set(u, string([]byte{byte(i)}))
				e.set(u, string([]byte{byte(d)}))
				uriBack(x, u, fmt.Sprintf("%s %q and %s %q", c.name, byte(i), e.name, byte(d)), mc.Thorough())
			}
		}})
	mc.Add(&mc.Suite{Prop: "C05", Name: "special-words", Bound: "every word of 3 (thorough: 4) of 24 special bytes in each component, alone and in messages",
		N: func() int64 { n := int64(len(uriSpecial)); return int64(len(comps)) * n * n },
		Case: func(x *mc.X, i int64) {
			n := int64(len(uriSpecial))
			c := comps[i/n/n]
			p := []byte{uriSpecial[i%n], uriSpecial[i/n%n]}
			for _, b := range uriSpecial {
				s := string(append(p[:2:2], b))
				u := base(0)
				c.set(u, s)
				uriBack(x, u, fmt.Sprintf("%s %q", c.name, s), true)
				if mc.Thorough() {
					for _, d := range uriSpecial {
						t := s + string([]byte{d})
						u := base(0)
						c.set(u, t)
						uriBack(x, u, fmt.Sprintf("%s %q", c.name, t), true)
					}
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C05", Name: "all-components", Bound: "every word of 2 special bytes in all components at once, in lists of 1..3 parameters and headers; all 256 bytes in one string; strings of up to 3000 bytes",
		N: func() int64 { n := int64(len(uriSpecial)); return n * n },
		Case: func(x *mc.X, i int64) {
			n := int64(len(uriSpecial))
			s := string([]byte{uriSpecial[i%n], uriSpecial[i/n]})
			for k := 1; k <= 3; k++ {
				u := base(int64(k - 1))
				u.User, u.Pass = s, s
				for j := 0; j < k; j++ {
					u.Param = &sip.URIParam{Name: s, Value: s, Next: u.Param}
					u.Header = &sip.URIHeader{Name: s, Value: s, Next: u.Header}
				}
				uriBack(x, u, fmt.Sprintf("%q in everything, %d", s, k), true)
			}
			if i == 0 {
				var all []byte
				for b := 0; b < 256; b++ {
					all = append(all, byte(b))
				}
				for _, s := range [][]byte{all, append(all, all...)} {
					for _, c := range comps {
						u := base(0)
						c.set(u, string(s))
						uriBack(x, u, "all bytes in "+c.name, true)
					}
				}
			}
			if i > 0 {
				for _, c := range comps {
					b := make([]byte, 10*i%3001+1)
					for k := range b {
						b[k] = uriSpecial[(int64(k)+i)%n]
					}
					u := base(0)
					c.set(u, string(b))
					uriBack(x, u, fmt.Sprintf("%d bytes in %s", len(b), c.name), true)
				}
			}
		}})
}
