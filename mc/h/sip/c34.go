package siph

import (
	"fmt"
	"strings"

	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// Names of which some differ in case only, some start alike, and queries.
var lookNames = []string{"tag", "TAG", "tagx", "ta", "branch", "Branch", "x-a", ""}
var lookQueries = []string{"tag", "Tag", "TAG", "tagx", "TAGX", "ta", "t", "tagxx", "branch", "BRANCH", "branc", "x-a", "X-A", "x_a", ""}

// first is the position of the first entry of that name, or -1.
func first(names []string, q string) int {
	for i, n := range names {
		if strings.ToLower(n) == strings.ToLower(q) {
			return i
		}
	}
	return -1
}

func words(n int64, base, most int) []int {
	// All words of up to most letters, the shortest first.
	for l := 0; l <= most; l++ {
		c := int64(1)
		for i := 0; i < l; i++ {
			c *= int64(base)
		}
		if n < c {
			w := make([]int, l)
			for i := range w {
				w[i] = int(n % int64(base))
				n /= int64(base)
			}
			return w
		}
		n -= c
	}
	return nil
}

func wordCount(base, most int) (c int64) {
	p := int64(1)
	for l := 0; l <= most; l++ {
		c += p
		p *= int64(base)
	}
	return
}

func init() {
	most := mc.Pick(4, 6)
	mc.Add(&mc.Suite{Prop: "C34", Name: "entries", Bound: fmt.Sprintf("every list of up to %d parameters, URI parameters, URI headers and extension headers of %d names (alike but for case or length, empty) looked up by each of %d names", most, len(lookNames), len(lookQueries)),
		N: func() int64 { return wordCount(len(lookNames), most) },
		Case: func(x *mc.X, i int64) {
			w := words(i, len(lookNames), most)
			var names []string
			for _, c := range w {
				names = append(names, lookNames[c])
			}
			var ps []*sip.Param
			var us []*sip.URIParam
			var hs []*sip.URIHeader
			var xs []*sip.XHeader
			for k := range w {
				ps = append(ps, &sip.Param{Name: names[k], Value: fmt.Sprint("v", k)})
				us = append(us, &sip.URIParam{Name: names[k], Value: fmt.Sprint("v", k)})
				hs = append(hs, &sip.URIHeader{Name: names[k], Value: fmt.Sprint("v", k)})
				xs = append(xs, &sip.XHeader{Name: names[k], Value: []byte(fmt.Sprint("v", k))})
				if k > 0 {
					ps[k-1].Next, us[k-1].Next, hs[k-1].Next, xs[k-1].Next = ps[k], us[k], hs[k], xs[k]
				}
			}
			var p *sip.Param
			var u *sip.URIParam
			var h *sip.URIHeader
			var e *sip.XHeader
			if len(w) > 0 {
				p, u, h, e = ps[0], us[0], hs[0], xs[0]
			}
			for _, q := range lookQueries {
				var wp *sip.Param
				var wu *sip.URIParam
				var wh *sip.URIHeader
				var we *sip.XHeader
				k := first(names, q)
				if k >= 0 {
					wp, wu, wh, we = ps[k], us[k], hs[k], xs[k]
				}
				var gp *sip.Param
				var gu *sip.URIParam
				var gh *sip.URIHeader
				var ge *sip.XHeader
				x.NoCrash("looking up", func() { gp, gu, gh, ge = p.Get(q), u.Get(q), h.Get(q), e.Get(q) })
				x.Step(4)
				x.Check(gp == wp, "parameter", "%q in %q, should be number %d, is %v", q, names, k, gp)
				x.Check(gu == wu, "URI parameter", "%q in %q, should be number %d, is %v", q, names, k, gu)
				x.Check(gh == wh, "URI header", "%q in %q, should be number %d, is %v", q, names, k, gh)
				x.Check(ge == we, "header", "%q in %q, should be number %d, is %v", q, names, k, ge)
			}
			for k := range w {
				x.Check(ps[k].Name == names[k] && us[k].Name == names[k] && hs[k].Name == names[k] && xs[k].Name == names[k], "looking up changes the list", "%q", names)
			}
			x.CoverH("distinct", uint64(i))
		}})

	// A branch: where among the parameters, what name, what value.
	branches := func() (vs []*sip.Via) {
		vs = append(vs, nil)
		for _, lead := range []string{"", "rport", "branchx", "bran"} {
			for _, n := range []string{"", "branch", "Branch", "BRANCH"} {
				for _, v := range []string{"z9hG4bK1", "z9hG4bK12", "z9hG4bK2", "1", "", "branch"} {
					if n == "" && v != "" {
						continue
					}
					a := &sip.Via{Host: "h"}
					if n != "" {
						a.Param = &sip.Param{Name: n, Value: v, Next: &sip.Param{Name: "received", Value: v}}
					}
					if lead != "" {
						a.Param = &sip.Param{Name: lead, Value: "z9hG4bK1", Next: a.Param}
					}
					vs = append(vs, a)
				}
			}
		}
		return
	}()
	branch := func(v *sip.Via) (string, bool) {
		if v == nil {
			return "", false
		}
		for p := v.Param; p != nil; p = p.Next {
			if strings.ToLower(p.Name) == "branch" {
				return p.Value, true
			}
		}
		return "", false
	}
	nb := int64(len(branches))
	mc.Add(&mc.Suite{Prop: "C34", Name: "branches", Bound: fmt.Sprintf("every ordered pair of %d Vias (none, without a branch, with one of several values in either position and case, among parameters of similar names), alone or ahead of another Via", nb),
		N: func() int64 { return nb * nb * 4 },
		Case: func(x *mc.X, i int64) {
			a, b := branches[i%nb], branches[i/nb%nb]
			k := i / nb / nb
			if a != nil && k&1 > 0 {
				c := *a
				c.Next, a = &sip.Via{Host: "i", Param: &sip.Param{Name: "branch", Value: "z9hG4bK2"}}, &c
			}
			if b != nil && k&2 > 0 {
				c := *b
				c.Next, b = &sip.Via{Host: "i", Param: &sip.Param{Name: "branch", Value: "z9hG4bK1"}}, &c
			}
			va, ha := branch(a)
			vb, hb := branch(b)
			want := ha && hb && va == vb
			var got bool
			x.NoCrash("comparing branches", func() { got = a.CompareBranch(b) })
			x.Step(1)
			x.Check(got == want, "CompareBranch", "%v of %s and %s", got, dumpVias(a), dumpVias(b))
			x.CoverH("distinct", uint64(i)+1<<32)
		}})

	hosts := []string{"a", "b", "aa", "10.0.0.1", "10.0.0.11", "::1", ""}
	ports := []uint16{0, 5060, 5061, 1, 65535, 5062}
	nv := int64(len(hosts)*len(ports)*4) + 1
	mkVia := func(i int64) *sip.Via {
		if i == 0 {
			return nil
		}
		i--
		v := &sip.Via{Host: hosts[i%int64(len(hosts))]}
		i /= int64(len(hosts))
		v.Port = ports[i%int64(len(ports))]
		i /= int64(len(ports))
		if i&1 > 0 {
			v.Transport, v.Param = "TCP", &sip.Param{Name: "received", Value: "b"}
		}
		if i&2 > 0 {
			v.Next = &sip.Via{Host: "b", Port: 1}
		}
		return v
	}
	mc.Add(&mc.Suite{Prop: "C34", Name: "hosts", Bound: fmt.Sprintf("every ordered pair of %d Vias and of as many addresses and URIs of either scheme: hosts, ports, defaults, none", nv),
		N: func() int64 { return nv * nv },
		Case: func(x *mc.X, i int64) {
			a, b := mkVia(i%nv), mkVia(i/nv)
			port := func(p uint16, scheme string) uint16 {
				if p == 0 && scheme == "sips" {
					return 5061
				}
				if p == 0 {
					return 5060
				}
				return p
			}
			want := a != nil && b != nil && a.Host == b.Host && port(a.Port, "") == port(b.Port, "")
			var got bool
			x.NoCrash("comparing Vias", func() { got = a.CompareHostPort(b) })
			x.Step(1)
			x.Check(got == want, "Via.CompareHostPort", "%v of %s and %s", got, dumpVias(a), dumpVias(b))
			for k := 0; k < 4; k++ {
				sa, sb := []string{"sip", "sips"}[k&1], []string{"sip", "sips"}[k>>1]
				addr := func(v *sip.Via, s string) *sip.Addr {
					if v == nil {
						return nil
					}
					a := &sip.Addr{Uri: &sip.URI{Scheme: s, User: v.Transport, Host: v.Host, Port: v.Port}}
					if v.Next != nil {
						a.Next = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "b", Port: 1}}
					}
					return a
				}
				aa, ab := addr(a, sa), addr(b, sb)
				want := aa != nil && ab != nil && a.Host == b.Host && port(a.Port, sa) == port(b.Port, sb)
				var got bool
				x.NoCrash("comparing addresses", func() { got = aa.CompareHostPort(ab) })
				x.Check(got == want, "Addr.CompareHostPort", "%v of %s and %s", got, aa, ab)
				if aa != nil && ab != nil {
					x.Check(aa.Uri.CompareHostPort(ab.Uri) == want, "URI.CompareHostPort", "%v of %s and %s", !want, aa.Uri, ab.Uri)
					x.Check(aa.Uri.GetPort() == port(a.Port, sa), "GetPort", "%d of %s", aa.Uri.GetPort(), aa.Uri)
				}
			}
			x.CoverH("distinct", uint64(i)+2<<32)
		}})

	mc.Add(&mc.Suite{Prop: "C34", Name: "marks", Bound: "a tag or branch given to an address or Via with 0..3 parameters, also one of that name, in a list of 1..3; bodies of any type; every status -1..1000 as a response or not",
		N: func() int64 { return 4*4*3 + 1002 },
		Case: func(x *mc.X, i int64) {
			if i >= 4*4*3 {
				n := int(i) - 4*4*3 - 1
				m := &sip.Msg{Status: n}
				x.Check(m.IsResponse() == (n > 0), "IsResponse", "%d", n)
				p := &sip.MiscPayload{T: fmt.Sprint("t/", n), D: []byte{byte(n), byte(n >> 8)}}
				x.Check(p.ContentType() == p.T && string(p.Data()) == string(p.D), "body", "%v", p)
				x.Step(1)
				return
			}
			n, at, l := int(i%4), int(i/4%4), int(i/16)+1
			ps := func(name string) (p *sip.Param) {
				for k := n - 1; k >= 0; k-- {
					q := &sip.Param{Name: fmt.Sprint("p", k), Value: fmt.Sprint(k), Next: p}
					if k == at {
						q.Name = name
					}
					p = q
				}
				return
			}
			a, v := genAddr(l, 0, 0, 0), genVia(l, 0)
			a.Param, v.Param = ps("tag"), ps("branch")
			sa, sv := dumpParam(a.Param), dumpParam(v.Param)
			ra, rv := dumpAddrs(a.Next), dumpVias(v.Next)
			x.Check(a.Tag() == a && v.Branch() == v, "marking returns another", "")
			x.Step(2)
			// The new mark is the one found, and everything else is as it was.
			g, h := a.Param.Get("tag"), v.Param.Get("branch")
			x.Check(g != nil && g.Value != "" && g.Value != fmt.Sprint(at), "Tag", "%s", dumpParam(a.Param))
			x.Check(h != nil && h.Value != "" && h.Value != fmt.Sprint(at), "Branch", "%s", dumpParam(v.Param))
			for k := 0; k < n; k++ {
				if k != at {
					q, r := a.Param.Get(fmt.Sprint("p", k)), v.Param.Get(fmt.Sprint("p", k))
					x.Check(q != nil && q.Value == fmt.Sprint(k) && r != nil && r.Value == fmt.Sprint(k), "marking loses a parameter", "%s %s", sa, sv)
				}
			}
			x.Check(dumpAddrs(a.Next) == ra && dumpVias(v.Next) == rv, "marking changes the rest of the list", "")
		}})
}
