package tph

import (
	"crypto/rand"
	"fmt"
	"regexp"
	"strings"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

var (
	branchShape = regexp.MustCompile(`^z9hG4bK-[0-9a-f]{12}$`)
	tagShape    = regexp.MustCompile(`^[0-9a-f]{12}$`)
	callIDShape = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)
)

// phrases of the registered status codes.
var phrases = map[int]string{
	100: "Trying", 180: "Ringing", 181: "Call Is Being Forwarded", 182: "Queued", 183: "Session Progress",
	200: "OK", 202: "Accepted", 204: "No Notification",
	300: "Multiple Choices", 301: "Moved Permanently", 302: "Moved Temporarily", 305: "Use Proxy", 380: "Alternative Service",
	400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed",
	406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout", 410: "Gone",
	413: "Request Entity Too Large", 414: "Request-URI Too Long", 415: "Unsupported Media Type", 416: "Unsupported URI Scheme",
	417: "Unknown Resource-Priority", 420: "Bad Extension", 421: "Extension Required", 422: "Session Interval Too Small",
	423: "Interval Too Brief", 428: "Use Identity Header", 429: "Provide Referrer Identity", 430: "Flow Failed",
	433: "Anonymity Disallowed", 437: "Unsupported Certificate", 438: "Invalid Identity Header",
	439: "First Hop Lacks Outbound Support", 470: "Consent Needed", 480: "Temporarily Unavailable",
	481: "Call/Transaction Does Not Exist", 482: "Loop Detected", 483: "Too Many Hops", 484: "Address Incomplete",
	485: "Ambiguous", 486: "Busy Here", 487: "Request Terminated", 488: "Not Acceptable Here", 489: "Bad Event",
	491: "Request Pending", 493: "Undecipherable", 494: "Security Agreement Required",
	501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 505: "Version Not Supported", 513: "Message Too Large",
	580: "Precondition Failure", 600: "Busy Everywhere", 603: "Decline", 604: "Does Not Exist Anywhere", 606: "Not Acceptable",
}

func named(host, tag string) *sip.Addr {
	a := &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "u", Host: host, Port: 5066, Param: &sip.URIParam{Name: "up", Value: "v"}}, Display: "D " + host}
	if tag != "" {
		a.Param = params("tag", tag, "z", "1")
	}
	return a
}

func routeList(n, form int) *sip.Addr {
	var as []*sip.Addr
	for i := 0; i < n; i++ {
		a := &sip.Addr{Uri: uri(fmt.Sprintf("10.1.%d.%d", form, i), uint16(5070+i), (i+form)%2 == 0)}
		if i == 1 {
			a.Param = params("rp", "w")
		}
		as = append(as, a)
	}
	return addrs(as...)
}

func viaList(n int) *sip.Via {
	var vs []*sip.Via
	for i := 0; i < n; i++ {
		vs = append(vs, &sip.Via{Host: fmt.Sprintf("10.2.0.%d", i), Port: uint16(5060 + i), Param: params("branch", fmt.Sprintf("z9hG4bK-%d", i), "rport", "")})
	}
	return vias(vs...)
}

// invite is an INVITE with everything in it.
type shape struct {
	vias, route, rr, contact, creds, cseq int
	totag                                 bool
}

var cseqs = []int{1, 7, 49999, 1<<31 - 2}
var credSets = [][2]string{{"", ""}, {"Digest a", ""}, {"", "Digest b"}, {"Digest a", "Digest b"}}

func (s shape) invite() *sip.Msg {
	m := &sip.Msg{
		Method:  "INVITE",
		Request: &sip.URI{Scheme: "sip", User: "callee", Host: "req.example", Port: 5064, Param: &sip.URIParam{Name: "user", Value: "phone"}},
		Via:     viaList(s.vias), From: named("from.example", "f1"), To: named("to.example", ""),
		Contact: named("me.example", ""), CallID: "the-call", CSeq: cseqs[s.cseq], CSeqMethod: "INVITE",
		MaxForwards: 11, UserAgent: "app", Subject: "subj", Expires: 5,
		Route:         routeList(s.route, 1),
		Authorization: credSets[s.creds][0], ProxyAuthorization: credSets[s.creds][1],
		Payload: &sip.MiscPayload{T: "text/plain", D: []byte("hello")},
		XHeader: &sip.XHeader{Name: "X-A", Value: []byte("v")},
	}
	return m
}

func (s shape) response(status int) *sip.Msg {
	m := &sip.Msg{
		Status: status, Phrase: "Whatever",
		Via: viaList(s.vias), From: named("from.example", "f1"), To: named("to.example", ""),
		CallID: "the-call", CSeq: cseqs[s.cseq], CSeqMethod: "INVITE",
		RecordRoute: routeList(s.rr, 2), Route: routeList(1, 7), UserAgent: "peer", Allow: "X", Expires: 9, MaxForwards: 3,
		Authorization: "Digest wrong", ProxyAuthorization: "Digest wrong",
		Payload: &sip.MiscPayload{T: "text/plain", D: []byte("answer")},
		XHeader: &sip.XHeader{Name: "X-B", Value: []byte("w")},
	}
	if s.totag {
		m.To.Param = params("tag", "t9")
	}
	if s.contact > 0 {
		m.Contact = named("target.example", "")
		m.Contact.Param = params("expires", "9")
		if s.contact > 1 {
			m.Contact.Next = named("second.example", "")
		}
	}
	return m
}

func (s shape) name() string { return fmt.Sprintf("%+v", s) }

// built compares what a builder made with what it should be, and its inputs
// with what they were.
func built(x *mc.X, what string, inputs []any, build func() *sip.Msg, want func(got *sip.Msg) *sip.Msg) *sip.Msg {
	before := fmt.Sprint(dumps(inputs))
	var m *sip.Msg
	x.NoCrash(what+": crash", func() { m = build() })
	x.Step(1)
	if m == nil {
		x.Violate(what+": nothing built", "")
	}
	g := ""
	x.NoCrash(what+": crash", func() { g = text(m) })
	if s := fmt.Sprint(dumps(inputs)); s != before {
		x.Violate(what+": input changed", "%s", differ("inputs", s, before))
	}
	w := text(want(m))
	if g != w {
		x.Violate(what+": content", "%s\ngot:\n%s", differ("message", g, w), g)
	}
	x.Checked(2)
	x.CoverH("distinct", mc.Hash(g))
	return m
}

func reversedAddrs(a *sip.Addr) *sip.Addr {
	var r *sip.Addr
	for ; a != nil; a = a.Next {
		b := *a
		b.Next = r
		r = &b
	}
	return r
}

func topVia(v *sip.Via) *sip.Via {
	w := *v
	w.Next = nil
	return &w
}

func init() {
	pick := func(x *mc.X, s *shape) {
		s.vias = 1 + x.Choose(2, "vias")
		s.route = x.Choose(4, "route")
		s.rr = x.Choose(4, "record-route")
		s.contact = 1 + x.Choose(2, "contact")
		s.creds = x.Choose(len(credSets), "credentials")
		s.cseq = x.Choose(len(cseqs), "cseq")
		s.totag = x.Bool("to tag")
	}
	ackStatuses := []int{200, 202, 299, 300, 302, 401, 404, 486, 500, 503, 603, 699}
	mc.Add(&mc.Suite{Prop: "C29", Name: "ack", Split: 3, Bound: fmt.Sprintf("responses of %d statuses: 1..2 Via, Route and Record-Route of 0..3, 0..2 contacts, credentials, CSeq numbers, To tag", len(ackStatuses)),
		Run: func(x *mc.X) {
			st := ackStatuses[x.Choose(len(ackStatuses), "status")]
			var s shape
			pick(x, &s)
			if st >= 300 {
				s.contact = x.Choose(3, "contact")
			}
			inv, rsp := s.invite(), s.response(st)
			m := built(x, "ACK", []any{inv, rsp}, func() *sip.Msg { return dialog.NewAck(rsp, inv) }, func(got *sip.Msg) *sip.Msg {
				inv, rsp := s.invite(), s.response(st)
				w := &sip.Msg{Method: "ACK", From: rsp.From, To: rsp.To, CallID: rsp.CallID, CSeq: rsp.CSeq, CSeqMethod: "ACK", Authorization: inv.Authorization, ProxyAuthorization: inv.ProxyAuthorization, UserAgent: got.UserAgent, Allow: got.Allow}
				w.Via = topVia(rsp.Via)
				w.Request, w.Route = inv.Request, inv.Route
				if st < 300 {
					w.Request, w.Route = rsp.Contact.Uri, reversedAddrs(rsp.RecordRoute)
					// A success is acknowledged in a transaction of its own.
					if b := got.Via.Param.Get("branch"); b != nil && branchShape.MatchString(b.Value) {
						w.Via.Param.Get("branch").Value = b.Value
					}
				}
				return w
			})
			// Built again it is the same again.
			if again := text(dialog.NewAck(rsp, inv)); st >= 300 && again != text(m) {
				x.Violate("ACK: differs when built again", "%s", differ("message", again, text(m)))
			}
		}})
	mc.Add(&mc.Suite{Prop: "C29", Name: "cancel", Split: 2, Bound: "INVITEs with 1..3 Via, Route of 0..3, credentials, CSeq numbers",
		Run: func(x *mc.X) {
			var s shape
			s.vias = 1 + x.Choose(3, "vias")
			s.route = x.Choose(4, "route")
			s.creds = x.Choose(len(credSets), "credentials")
			s.cseq = x.Choose(len(cseqs), "cseq")
			inv := s.invite()
			built(x, "CANCEL", []any{inv}, func() *sip.Msg { return dialog.NewCancel(inv) }, func(got *sip.Msg) *sip.Msg {
				inv := s.invite()
				w := &sip.Msg{Method: "CANCEL", Request: inv.Request, Via: inv.Via, From: inv.From, To: inv.To, CallID: inv.CallID, CSeq: inv.CSeq, CSeqMethod: "CANCEL", Route: inv.Route, UserAgent: got.UserAgent, Allow: got.Allow}
				if got.Via != nil && got.Via.Next == nil {
					w.Via = topVia(w.Via)
				}
				return w
			})
		}})
	mc.Add(&mc.Suite{Prop: "C29", Name: "bye", Split: 3, Bound: "INVITE and answer: 1..2 Via, Route and Record-Route of 0..3, 1..2 contacts, credentials, CSeq numbers, To tag; counter absent or at 5 values; three BYEs in a row",
		Run: func(x *mc.X) {
			var s shape
			pick(x, &s)
			counters := []int{0, 1, 8, 60000, 1<<31 - 5}
			n := x.Choose(len(counters)+1, "counter")
			inv, rsp := s.invite(), s.response(200)
			var lseq *int
			if n > 0 {
				v := counters[n-1]
				lseq = &v
			}
			next := s.invite().CSeq
			if n > 0 {
				next = counters[n-1]
			}
			for k := 0; k < 3; k++ {
				if n > 0 || k == 0 {
					next++
				}
				built(x, "BYE", []any{inv, rsp}, func() *sip.Msg { return dialog.NewBye(inv, rsp, lseq) }, func(got *sip.Msg) *sip.Msg {
					inv, rsp := s.invite(), s.response(200)
					return &sip.Msg{Method: "BYE", Request: rsp.Contact.Uri, From: inv.From, To: rsp.To, CallID: inv.CallID, CSeq: next, CSeqMethod: "BYE", Route: reversedAddrs(rsp.RecordRoute), Via: got.Via, Contact: got.Contact, UserAgent: got.UserAgent, Allow: got.Allow}
				})
				if lseq != nil && *lseq != next {
					x.Violate("BYE: counter", "%d, should be %d", *lseq, next)
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C29", Name: "response", Bound: "every status 100..699 to a request with 1..3 Via, Record-Route of 0..3, To with and without tag, 6 methods",
		N: func() int64 { return 600 },
		Case: func(x *mc.X, i int64) {
			st := 100 + int(i)
			for k := 0; k < 3*4*2; k++ {
				for _, method := range []string{"INVITE", "BYE", "OPTIONS", "CANCEL", "REGISTER", "FOO"} {
					mk := func() *sip.Msg {
						s := shape{vias: 1 + k%3, route: 2, creds: 3, cseq: 1}
						m := s.invite()
						m.Method, m.CSeqMethod = method, method
						m.RecordRoute = routeList(k/3%4, 3)
						if k/12 == 1 {
							m.To.Param = params("tag", "t5")
						}
						return m
					}
					req := mk()
					m := built(x, "response", []any{req}, func() *sip.Msg { return dialog.NewResponse(req, st) }, func(got *sip.Msg) *sip.Msg {
						r := mk()
						w := &sip.Msg{Status: st, Phrase: got.Phrase, Via: r.Via, From: r.From, To: r.To, CallID: r.CallID, CSeq: r.CSeq, CSeqMethod: method, RecordRoute: r.RecordRoute, UserAgent: got.UserAgent, Allow: got.Allow}
						return w
					})
					if p := phrases[st]; p != "" && m.Phrase != p || m.Phrase == "" {
						x.Violate("response: phrase", "%d %q, should be %q", st, m.Phrase, p)
					}
					for _, a := range []string{"INVITE", "ACK", "CANCEL", "BYE", "OPTIONS"} {
						if m.Allow != "" && !strings.Contains(m.Allow, a) {
							x.Violate("response: Allow", "%q lacks %s", m.Allow, a)
						}
					}
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C29", Name: "request", Split: 2, Bound: "6 methods, the sender given or not, own Via and Contact with and without parameters, recipients with and without display name, tag and parameters; each built three times",
		Run: func(x *mc.X) {
			rand.Reader = &entropy{}
			method := []string{"INVITE", "REGISTER", "OPTIONS", "BYE", "MESSAGE", "FOO"}[x.Choose(6, "method")]
			fromGiven, ownParams, toForm, disp := x.Bool("from given"), x.Bool("own parameters"), x.Choose(4, "to"), x.Bool("contact display")
			mkTP := func() *dialog.Transport {
				tp := &dialog.Transport{Via: &sip.Via{Host: "10.0.0.99", Port: 5070}, Contact: &sip.Addr{Uri: uri("10.0.0.99", 5070, false)}}
				if ownParams {
					tp.Via.Param = params("rport", "", "x", "y")
					tp.Via.Transport = "TLS"
					tp.Contact.Param = params("q", "1")
					tp.Contact.Uri.Param = &sip.URIParam{Name: "transport", Value: "udp"}
				}
				if disp {
					tp.Contact.Display = "Me"
				}
				return tp
			}
			mkTo := func() *sip.Addr {
				switch toForm {
				case 0:
					return &sip.Addr{Uri: uri("to.example", 0, false)}
				case 1:
					return named("to.example", "")
				case 2:
					return named("to.example", "totag")
				}
				return &sip.Addr{Uri: &sip.URI{Scheme: "sips", User: "a b", Pass: "p", Host: "2001:db8::3", Port: 1, Param: &sip.URIParam{Name: "lr"}, Header: &sip.URIHeader{Name: "h", Value: "v"}}}
			}
			mkFrom := func() *sip.Addr {
				if !fromGiven {
					return nil
				}
				a := named("from.example", "")
				a.Param = params("z", "1")
				return a
			}
			tp, to, from := mkTP(), mkTo(), mkFrom()
			seen := map[string]bool{}
			for k := 0; k < 3; k++ {
				m := built(x, "request", []any{tp.Via, tp.Contact, to, from}, func() *sip.Msg { return dialog.NewRequest(tp, method, to, from) }, func(got *sip.Msg) *sip.Msg {
					tp, to, from := mkTP(), mkTo(), mkFrom()
					if from == nil {
						from = tp.Contact
					}
					b, _ := get(got.Via.Param, "branch")
					t, _ := get(got.From.Param, "tag")
					w := &sip.Msg{Method: method, Request: to.Uri, Via: tp.Via, From: from, To: to, CallID: got.CallID, CSeq: got.CSeq, CSeqMethod: method, UserAgent: got.UserAgent, Allow: got.Allow, Contact: got.Contact}
					w.Via.Param = &sip.Param{Name: "branch", Value: b, Next: w.Via.Param}
					w.From.Param = &sip.Param{Name: "tag", Value: t, Next: w.From.Param}
					if !branchShape.MatchString(b) || !tagShape.MatchString(t) || !callIDShape.MatchString(got.CallID) || got.CSeq < 0 || got.CSeq >= 1<<31 {
						x.Violate("request: identifiers", "%q %q %q %d", b, t, got.CallID, got.CSeq)
					}
					for _, id := range []string{"b" + b, "t" + t, "c" + got.CallID} {
						if seen[id] {
							x.Violate("request: identifier not fresh", "%s", id)
						}
						seen[id] = true
					}
					return w
				})
				// Changing the request must not reach back into what it was made from.
				before := fmt.Sprint(dumps([]any{tp.Via, tp.Contact, to, from}))
				m.Via.Host, m.Via.Param.Value, m.From.Uri.Host, m.To.Uri.Host, m.Request.Host = "x", "x", "x", "x", "x"
				m.From.Param.Value, m.To.Display = "x", "x"
				if s := fmt.Sprint(dumps([]any{tp.Via, tp.Contact, to, from})); s != before {
					x.Violate("request: shares its parts", "%s", differ("inputs", s, before))
				}
			}
		}})

	// Matching.
	hosts := []string{"10.0.0.1", "10.0.0.2"}
	mports := []uint16{0, 5060, 5061, 65535}
	branches := [][]string{nil, {"branch", "z9hG4bK-1"}, {"branch", "z9hG4bK-2"}, {"branch", ""}, {"rport", "", "branch", "z9hG4bK-1"}}
	meths := []string{"INVITE", "BYE", "ACK"}
	mkVia := func(h, p, b, form int) *sip.Via {
		v := &sip.Via{Host: hosts[h], Port: mports[p], Param: params(branches[b]...)}
		if form > 0 {
			v = vias(&sip.Via{Host: hosts[1-h], Port: 9, Param: params("branch", "z9hG4bK-3")}, v)
		}
		if form > 1 {
			v = vias(&sip.Via{Host: hosts[h], Port: mports[p], Param: params(branches[(b+1)%2]...)}, v, v.Next)
		}
		return v
	}
	sameBranch := func(a, b int) bool {
		x, ok := get(params(branches[a]...), "branch")
		y, ok2 := get(params(branches[b]...), "branch")
		return ok && ok2 && x == y
	}
	mc.Add(&mc.Suite{Prop: "C29", Name: "response-match", Bound: "all pairs of request and message: 3 methods and 3 CSeq numbers on each side, response or request, host, 4 ports, 5 branches on each side, matched Via last of 1..3 or missing",
		N: func() int64 { return 3 * 3 * 3 * 3 * 2 },
		Case: func(x *mc.X, i int64) {
			i0 := i
			pick := func(n int64) int { r := i % n; i /= n; return int(r) }
			rm, rc, mm, mcs, isReq := pick(3), pick(3), pick(3), pick(3), pick(2)
			for a := 0; a < 2*4*5; a++ {
				for b := 0; b < 2*4*5; b++ {
					for form := 0; form < 4; form++ {
						req := &sip.Msg{Method: meths[rm], CSeq: rc + 5, CSeqMethod: meths[rm], Via: mkVia(a%2, a/2%4, a/8, 0), CallID: "c", From: named("f", "1"), To: named("t", ""), Request: uri("r", 0, false)}
						rsp := &sip.Msg{Status: 180, CSeq: mcs + 5, CSeqMethod: meths[mm], CallID: "c", From: named("f", "1"), To: named("t", "2")}
						if form < 3 {
							rsp.Via = mkVia(b%2, b/2%4, b/8, form)
						}
						if isReq == 1 {
							rsp.Status, rsp.Method, rsp.Request = 0, meths[mm], req.Request
						}
						want := isReq == 0 && form < 3 && rc == mcs && rm == mm && a%2 == b%2 && or5060(mports[a/2%4]) == or5060(mports[b/2%4]) && sameBranch(a/8, b/8)
						var got bool
						x.NoCrash("crash", func() { got = dialog.ResponseMatch(req, rsp) })
						if got != want {
							x.Violate("ResponseMatch", "%v, should be %v\n%s\n%s", got, want, req, rsp)
						}
					}
				}
			}
			x.Step(6400)
			x.Checked(6400)
			x.Cover("distinct", fmt.Sprint("response", i0))
		}})
	mc.Add(&mc.Suite{Prop: "C29", Name: "ack-match", Bound: "all pairs of message and request: 3 methods, 3 methods in the CSeq, 3 CSeq numbers, response or request, host, 4 ports, 5 branches on each side, matched Via last of 1..3 or missing",
		N: func() int64 { return 3 * 3 * 3 * 3 * 2 },
		Case: func(x *mc.X, i int64) {
			i0 := i
			pick := func(n int64) int { r := i % n; i /= n; return int(r) }
			rc, am, ac, acs, isRsp := pick(3), pick(3), pick(3), pick(3), pick(2)
			for a := 0; a < 2*4*5; a++ {
				for b := 0; b < 2*4*5; b++ {
					for form := 0; form < 4; form++ {
						// What came through proxies has their Vias on top.
						msg := &sip.Msg{Status: 200, CSeq: rc + 5, CSeqMethod: "INVITE", Via: mkVia(a%2, a/2%4, a/8, (a+b)%3), CallID: "c", From: named("f", "1"), To: named("t", "")}
						ack := &sip.Msg{Method: meths[am], CSeq: acs + 5, CSeqMethod: meths[ac], CallID: "c", From: named("f", "1"), To: named("t", "2"), Request: uri("r", 0, false)}
						if form < 3 {
							ack.Via = mkVia(b%2, b/2%4, b/8, form)
						}
						if isRsp == 1 {
							ack.Status = 200
						}
						if am != 2 && ac == 2 || am == 2 && ac != 2 {
							continue // method and CSeq disagree: not a well-formed message
						}
						want := isRsp == 0 && form < 3 && rc == acs && am == 2 && a%2 == b%2 && or5060(mports[a/2%4]) == or5060(mports[b/2%4])
						var got bool
						x.NoCrash("crash", func() { got = dialog.AckMatch(msg, ack) })
						if got != want {
							x.Violate("AckMatch", "%v, should be %v\n%s\n%s", got, want, msg, ack)
						}
					}
				}
			}
			x.Step(6400)
			x.Checked(6400)
			x.Cover("distinct", fmt.Sprint("ack", i0))
		}})
}
