package tph

import (
	"fmt"
	"strconv"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// base is a message with everything in it.
func base(method string, status int) *sip.Msg {
	m := &sip.Msg{
		Via:         vias(&sip.Via{Host: "10.0.0.99", Port: 5070, Param: params("branch", "z9hG4bK-b", "rport", "")}, &sip.Via{Host: "10.0.0.50", Port: 5081, Param: params("branch", "z9hG4bK-c")}),
		From:        &sip.Addr{Uri: uri("from.example", 0, false), Display: "F", Param: params("tag", "f1")},
		To:          &sip.Addr{Uri: uri("to.example", 5062, false), Param: params("tag", "t1")},
		Contact:     &sip.Addr{Uri: uri("contact.example", 5063, false)},
		RecordRoute: addrs(&sip.Addr{Uri: uri("10.0.0.99", 5070, true)}, &sip.Addr{Uri: uri("rr.example", 0, true)}),
		CallID:      "call", CSeq: 7, CSeqMethod: "INVITE", MaxForwards: 9, UserAgent: "ua", Subject: "s",
		Authorization: "Digest x", Payload: &sdp.SDP{Addr: "1.2.3.4", Origin: sdp.Origin{ID: "1", Addr: "1.2.3.4"}, Session: "s", Time: "0 0", Audio: &sdp.Media{Proto: "RTP/AVP", Port: 4, Codecs: []sdp.Codec{sdp.ULAWCodec}}},
		XHeader: &sip.XHeader{Name: "X-A", Value: []byte("v")},
	}
	if status > 0 {
		m.Status, m.Phrase = status, "Fine"
	} else {
		m.Method, m.CSeqMethod = method, method
		m.Request = &sip.URI{Scheme: "sip", User: "u", Host: "req.example", Port: 5064}
	}
	return m
}

type hop struct {
	name string
	f    func() *sip.Addr
}

var hops = []hop{
	{"own loose", func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 5070, true)} }},
	{"own strict", func() *sip.Addr {
		return &sip.Addr{Uri: uri("10.0.0.99", 5070, false), Display: "me", Param: params("x", "y")}
	}},
	{"own host, other port", func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 5071, true)} }},
	{"own host, no port", func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 0, true)} }},
	{"own host, default port, strict", func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 5060, false)} }},
	{"loose", func() *sip.Addr { return &sip.Addr{Uri: uri("l.example", 0, true)} }},
	{"loose, port, parameters", func() *sip.Addr {
		a := &sip.Addr{Uri: uri("10.0.0.9", 5099, true), Param: params("p", "q")}
		a.Uri.Param = &sip.URIParam{Name: "transport", Value: "udp", Next: a.Uri.Param}
		a.Uri.User = "x"
		return a
	}},
	{"loose with a value", func() *sip.Addr {
		a := &sip.Addr{Uri: uri("2001:db8::7", 5070, false)}
		a.Uri.Param = &sip.URIParam{Name: "lr", Value: "on"}
		return a
	}},
	{"strict", func() *sip.Addr { return &sip.Addr{Uri: uri("s.example", 0, false)} }},
	{"strict, port, user, parameter", func() *sip.Addr {
		a := &sip.Addr{Uri: uri("10.0.0.8", 5098, false), Display: "S", Param: params("lr", "")}
		a.Uri.User = "s"
		a.Uri.Param = &sip.URIParam{Name: "maddr", Value: "lr"}
		return a
	}},
}

var owns = []hop{
	{"none", func() *sip.Addr { return nil }},
	{"10.0.0.99:5070", func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 5070, false)} }},
	{"10.0.0.99:5060", func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 5060, false)} }},
	{"10.0.0.99", func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 0, false)} }},
}

var targets = []func() *sip.URI{
	func() *sip.URI { return &sip.URI{Scheme: "sip", User: "u", Host: "req.example", Port: 5064} },
	func() *sip.URI {
		return &sip.URI{Scheme: "sip", Host: "10.0.0.99", Port: 5070, Param: &sip.URIParam{Name: "lr"}}
	},
	func() *sip.URI {
		return &sip.URI{Scheme: "sip", Host: "2001:db8::1", Header: &sip.URIHeader{Name: "h", Value: "v"}}
	},
}

type viaKind struct {
	name string
	f    func() *sip.Via
}

var viaHosts = []viaKind{
	{"own", func() *sip.Via { return &sip.Via{Host: "10.0.0.99", Port: 5070} }},
	{"own host, other port", func() *sip.Via { return &sip.Via{Host: "10.0.0.99", Port: 5071} }},
	{"own host, no port", func() *sip.Via { return &sip.Via{Host: "10.0.0.99"} }},
	{"name", func() *sip.Via { return &sip.Via{Host: "v.example"} }},
	{"IPv6 and port", func() *sip.Via { return &sip.Via{Host: "2001:db8::5", Port: 5085} }},
}

var viaParams = [][]string{
	nil,
	{"branch", "z9hG4bK-1"},
	{"received", "192.0.2.5"},
	{"received", ""},
	{"rport", ""},
	{"rport", "4321"},
	{"rport", "65535", "received", "192.0.2.5", "branch", "z9hG4bK-1"},
	{"rport", "", "received", "2001:db8::6"},
	{"received", "", "rport", "1"},
	{"rport", "x"},
	{"rport", "70000"},
	{"rport", "65536"},
	{"rport", "-1"},
	{"rport", "4294967297"},
	{"rport", "99999999999999999999"},
	{"rport", "5060x"},
	{"received", "192.0.2.5", "rport", "1.5"},
	{"Rport", "7"},
}

func checkRoute(x *mc.X, own *sip.Via, contact *sip.Addr, mk func() *sip.Msg) {
	m, want := mk(), mk()
	var lists []any
	lists = append(lists, m.Route, m.Via, m.RecordRoute, m.Request, own, contact)
	before := fmt.Sprint(dumps(lists))
	wh, wp, werr := route(own, contact, want)
	var host string
	var port uint16
	var err error
	x.NoCrash("crash", func() { host, port, err = dialog.RouteMessage(own, contact, m) })
	x.Step(1)
	x.Checked(1)
	if (err != nil) != (werr != nil) {
		x.Violate("error", "%v, should be %v", err, werr)
	}
	if s := fmt.Sprint(dumps(lists)); s != before {
		x.Violate("list changed in place", "%s", differ("lists of the message, which may be shared", s, before))
	}
	key := fmt.Sprint(wh, wp, werr != nil)
	if werr != nil {
		x.CoverH("distinct", mc.Hash(key))
		return
	}
	if host != wh || port != wp && or5060(port) != or5060(wp) {
		x.Violate("next hop", "%s port %d, should be %s port %d", host, port, wh, wp)
	}
	g, w := mc.Dump(m), mc.Dump(want)
	if g != w {
		x.Violate("message", "%s", differ("message", g, w))
	}
	x.CoverH("distinct", mc.Hash(key+w))
}

func dumps(vs []any) (r []string) {
	for _, v := range vs {
		r = append(r, mc.Dump(v))
	}
	return
}

func init() {
	methods := []string{"INVITE", "REGISTER", "BYE", "ACK", "CANCEL", "OPTIONS", "XYZ", "register"}
	mc.Add(&mc.Suite{Prop: "C18", Name: "requests", Split: 3, Bound: fmt.Sprintf("every Route of up to %d of %d kinds of entries, %d methods, %d request URIs, %d own addresses", mc.Pick(3, 4), len(hops), len(methods), len(targets), len(owns)),
		Run: func(x *mc.X) {
			own := owns[x.Choose(len(owns), "own address")].f
			t := targets[x.Choose(len(targets), "request URI")]
			method := methods[x.Choose(len(methods), "method")]
			var rs []hop
			for len(rs) < mc.Pick(3, 4) {
				i := x.Choose(len(hops)+1, "entry")
				if i == 0 {
					break
				}
				rs = append(rs, hops[i-1])
			}
			if len(rs) > 1 && own() != nil && isOwn(own(), rs[0].f()) && isOwn(own(), rs[1].f()) {
				x.Skip() // twice our own: not settled
			}
			checkRoute(x, &sip.Via{Host: "10.0.0.99", Port: 5070}, own(), func() *sip.Msg {
				m := base(method, 0)
				m.Request = t()
				var as []*sip.Addr
				for _, r := range rs {
					as = append(as, r.f())
				}
				m.Route = addrs(as...)
				return m
			})
		}})
	ownVias := []func() *sip.Via{
		func() *sip.Via { return nil },
		func() *sip.Via { return &sip.Via{Host: "10.0.0.99", Port: 5070} },
		func() *sip.Via { return &sip.Via{Host: "10.0.0.99", Port: 5060, Param: params("rport", "9")} },
		func() *sip.Via { return &sip.Via{Host: "10.0.0.99"} },
	}
	statuses := []int{100, 180, 200, 302, 486, 503, 699}
	mc.Add(&mc.Suite{Prop: "C18", Name: "responses", Split: 3, Bound: fmt.Sprintf("every Via list of up to %d of %d hosts with %d kinds of parameters on the first two, %d own addresses, %d statuses", mc.Pick(3, 3), len(viaHosts), len(viaParams), len(ownVias), len(statuses)),
		Run: func(x *mc.X) {
			own := ownVias[x.Choose(len(ownVias), "own address")]
			var hs, ps []int
			for len(hs) < 3 {
				i := x.Choose(len(viaHosts)+1, "Via")
				if i == 0 {
					break
				}
				p := 0
				if len(hs) < 2 {
					p = x.Choose(len(viaParams), "parameters")
				}
				hs, ps = append(hs, i-1), append(ps, p)
			}
			if len(hs) > 1 && own() != nil && isOwnVia(own(), viaHosts[hs[0]].f()) && isOwnVia(own(), viaHosts[hs[1]].f()) {
				x.Skip()
			}
			for _, st := range statuses {
				checkRoute(x, own(), &sip.Addr{Uri: uri("10.0.0.99", 5070, false)}, func() *sip.Msg {
					m := base("", st)
					var vs []*sip.Via
					for k, h := range hs {
						v := viaHosts[h].f()
						v.Param = params(viaParams[ps[k]]...)
						vs = append(vs, v)
					}
					m.Via = vias(vs...)
					return m
				})
			}
		}})
	mc.Add(&mc.Suite{Prop: "C18", Name: "ports", Bound: "every port number in a Via, an rport, a loose or strict Route entry and a request URI",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			p := uint16(i)
			own := func() *sip.Via { return &sip.Via{Host: "10.0.0.99", Port: 5070} }
			me := func() *sip.Addr { return &sip.Addr{Uri: uri("10.0.0.99", 5070, false)} }
			for _, k := range []int{0, 1, 2, 3, 4, 5, 6} {
				checkRoute(x, own(), me(), func() *sip.Msg {
					m := base("INVITE", 0)
					switch k {
					case 0:
						m.Request.Port = p
					case 1:
						m.Route = &sip.Addr{Uri: uri("10.0.0.9", p, true)}
					case 2:
						m.Route = &sip.Addr{Uri: uri("10.0.0.9", p, false)}
					case 3:
						m.Route = addrs(&sip.Addr{Uri: uri("10.0.0.99", p, true)}, &sip.Addr{Uri: uri("10.0.0.9", 7, true)})
					case 4:
						m = base("", 200)
						m.Via = &sip.Via{Host: "v.example", Port: p}
					case 5:
						m = base("", 200)
						m.Via = vias(&sip.Via{Host: "10.0.0.99", Port: p}, &sip.Via{Host: "v.example", Port: 9})
					case 6:
						if p == 0 {
							p = 1
						}
						m = base("", 200)
						m.Via = &sip.Via{Host: "v.example", Port: 4, Param: params("rport", strconv.Itoa(int(p)))}
					}
					return m
				})
			}
		}})
}
