package siph

import (
	"bytes"
	"fmt"
	"net"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// phraseTable is the standard reason phrases, frozen.
var phraseTable = map[int]string{
	100: "Trying", 180: "Ringing", 181: "Call Is Being Forwarded", 182: "Queued", 183: "Session Progress", 200: "OK", 202: "Accepted", 204: "No Notification",
	300: "Multiple Choices", 301: "Moved Permanently", 302: "Moved Temporarily", 305: "Use Proxy", 380: "Alternative Service",
	400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable",
	407: "Proxy Authentication Required", 408: "Request Timeout", 409: "Conflict", 410: "Gone", 411: "Length Required", 412: "Conditional Request Failed",
	413: "Request Entity Too Large", 414: "Request-URI Too Long", 415: "Unsupported Media Type", 416: "Unsupported URI Scheme", 417: "Unknown Resource-Priority",
	420: "Bad Extension", 421: "Extension Required", 422: "Session Interval Too Small", 423: "Interval Too Brief", 428: "Use Identity Header",
	429: "Provide Referrer Identity", 430: "Flow Failed", 433: "Anonymity Disallowed", 436: "Bad Identity-Info", 437: "Unsupported Certificate",
	438: "Invalid Identity Header", 439: "First Hop Lacks Outbound Support", 440: "Max-Breadth Exceeded", 470: "Consent Needed", 480: "Temporarily Unavailable",
	481: "Call/Transaction Does Not Exist", 482: "Loop Detected", 483: "Too Many Hops", 484: "Address Incomplete", 485: "Ambiguous", 486: "Busy Here",
	487: "Request Terminated", 488: "Not Acceptable Here", 489: "Bad Event", 491: "Request Pending", 493: "Undecipherable", 494: "Security Agreement Required",
	500: "Internal Server Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Gateway Time-out", 505: "Version Not Supported",
	513: "Message Too Large", 580: "Precondition Failure", 600: "Busy Everywhere", 603: "Decline", 604: "Does Not Exist Anywhere", 606: "Not Acceptable", 687: "Dialog Terminated",
}

// canonical is what a message must parse back to: itself with the documented
// defaults filled in.
func canonical(m *sip.Msg) *sip.Msg {
	r := *m
	if r.VersionMajor == 0 {
		r.VersionMajor, r.VersionMinor = 2, 0
	}
	uriC := func(u *sip.URI) *sip.URI {
		if u == nil {
			return nil
		}
		c := *u
		if c.Scheme == "" {
			c.Scheme = "sip"
		}
		return &c
	}
	if r.Status == 0 {
		if r.Method == "" {
			r.Method = "INVITE"
		}
		r.Phrase = ""
		if r.MaxForwards == 0 {
			r.MaxForwards = 70
		}
		r.Request = uriC(r.Request)
	} else {
		r.Method, r.Request, r.MaxForwards = "", nil, 0
		if r.Phrase == "" {
			if r.Phrase = phraseTable[r.Status]; r.Phrase == "" {
				r.Phrase = "Unknown Status Code"
			}
		}
	}
	r.Via = nil
	vp := &r.Via
	for v := m.Via; v != nil; v = v.Next {
		c := *v
		if c.Protocol == "" {
			c.Protocol = "SIP"
		}
		if c.Version == "" {
			c.Version = "2.0"
		}
		if c.Transport == "" {
			c.Transport = "UDP"
		}
		if c.Port == 5060 {
			c.Port = 0
		}
		*vp = &c
		vp = &c.Next
	}
	for _, h := range addrHdrs {
		p := addrField(&r, h.field)
		a := *p
		*p = nil
		for ; a != nil; a = a.Next {
			c := *a
			c.Uri = uriC(a.Uri)
			c.Next = nil
			*lastp(p) = &c
		}
	}
	return &r
}

var strHdrByName = func() map[string]func(*sip.Msg) *string {
	r := map[string]func(*sip.Msg) *string{}
	for _, h := range strHdrs {
		r[strings.ToLower(h.name)] = h.get
	}
	return r
}()

// roundTrip is the property itself.
func roundTrip(x *mc.X, m *sip.Msg, key string) {
	before := dump(m)
	var text string
	x.NoCrash("crash writing: "+key, func() { text = m.String() })
	x.Step(1)
	buf := bytes.NewBufferString("before")
	m.Append(buf)
	x.Eq(buf.String(), "before"+text, "Append and String differ: "+key)
	x.Eq(dump(m), before, "writing changed the message: "+key)
	got, err := sip.ParseMsg([]byte(text))
	x.Step(1)
	if err != nil {
		x.Violate("written message refused: "+key, "%v\n%q", err, text)
	}
	want := canonical(m)
	if g, w := dump(got), dump(want); g != w {
		x.Violate("read back differently: "+key, "text %q\ngot\n%swant\n%s", text, g, w)
	}
	var again string
	x.NoCrash("crash writing again: "+key, func() { again = got.String() })
	x.Step(1)
	x.Eq(again, text, "second writing differs: "+key)
	head, body, ok := strings.Cut(text, "\r\n\r\n")
	x.Check(ok, "no end of headers: "+key, "%q", text)
	n := -1
	lines := map[string]int{}
	for _, l := range strings.Split(head, "\r\n")[1:] {
		k, v, _ := strings.Cut(l, ": ")
		lines[strings.ToLower(k)]++
		if strings.EqualFold(k, "Content-Length") {
			x.Check(n < 0, "two Content-Length headers: "+key, "%q", text)
			n, _ = strconv.Atoi(v)
		}
		if h := strHdrByName[strings.ToLower(k)]; h != nil && *h(m) == "" {
			x.Violate("header not set: "+k, "%q", text)
		}
	}
	for k, there := range map[string]bool{
		// A registration ends with an expiry of 0.
		"Expires":     m.Expires > 0 || m.Method == "REGISTER" || m.CSeqMethod == "REGISTER",
		"Min-Expires": m.MinExpires > 0, "Max-Forwards": !m.IsResponse(), "Route": m.Route != nil, "Record-Route": m.RecordRoute != nil, "Contact": m.Contact != nil,
		"P-Asserted-Identity": m.PAssertedIdentity != nil, "Remote-Party-ID": m.RemotePartyID != nil, "Content-Type": m.Payload != nil, "From": true, "To": true, "Call-ID": true, "CSeq": true, "Content-Length": true,
	} {
		if c := lines[strings.ToLower(k)]; m.XHeader.Get(k) == nil && (c > 1 || c == 1 != there) {
			x.Violate("header "+k+": "+key, "there %d times\n%q", c, text)
		}
	}
	x.Check(n == len(body), "Content-Length: "+key, "header says %d, body has %d bytes", n, len(body))
	x.CoverH("distinct", mc.Hash(text))
}

type option struct {
	field, name string
	do          func(m *sip.Msg)
}

var rtAddrs = []*sip.Addr{
	{Uri: uri("", "", "", "h", 0)},
	{Uri: uri("sip", "bob", "", "example.com", 5060)},
	{Uri: uri("sips", "bob", "p w", "fe80::1", 1), Display: "Bob"},
	{Uri: &sip.URI{Scheme: "sip", Host: "h", Param: &sip.URIParam{Name: "lr", Next: &sip.URIParam{Name: "a;=", Value: "b?,"}}}, Display: "a, b <x>;y"},
	{Uri: &sip.URI{Scheme: "sip", User: "u@", Host: "1.2.3.4", Port: 65535, Header: &sip.URIHeader{Name: "Subject", Value: "a&b=c", Next: &sip.URIHeader{Name: "x&="}}}, Param: params("tag", "a1", "q", "0.5", "lr", "")},
	{Uri: uri("tel", "", "", "+12013-4", 0), Display: "\"q\" \\ \xc3\xa9", Param: params("a", "x y", "b", "\"", "c", "[::1]:5", "d", "a,b;c=d")},
	{Uri: uri("sip", "", "", "h", 0), Display: " blanks \t", Param: params("n", "")},
	{Uri: &sip.URI{Scheme: "sip", Host: "h", Param: &sip.URIParam{Name: "x", Value: "y"}, Header: &sip.URIHeader{Name: "z"}}, Display: "one\r\n two", Param: params("a", "b\r\n\tc")},
}

var rtVias = []*sip.Via{
	{Host: "h"},
	{Host: "1.2.3.4", Port: 5060, Param: params("branch", "z9hG4bK-1")},
	{Protocol: "SIP", Version: "2.0", Transport: "TLS", Host: "fe80::1", Port: 5061, Param: params("rport", "", "received", "9.9.9.9", "branch", "b")},
	{Protocol: "x", Version: "3.1", Transport: "udp", Host: "fe80::2", Param: params("a", "b c", "d", "\"")},
	{Transport: "TCP", Host: "Host-1.x", Port: 1},
	{Host: "h", Port: 65535, Param: params("a", "")},
}

func addrList(idx ...int) *sip.Addr {
	var l *sip.Addr
	for _, i := range idx {
		c := *rtAddrs[i]
		c.Next = nil
		*lastp(&l) = &c
	}
	return l
}

func viaList(idx ...int) *sip.Via {
	var l *sip.Via
	for i := len(idx) - 1; i >= 0; i-- {
		c := *rtVias[idx[i]]
		c.Next = l
		l = &c
	}
	return l
}

var options = func() (r []option) {
	put := func(f, n string, do func(m *sip.Msg)) { r = append(r, option{f, f + " " + n, do}) }
	for _, h := range strHdrs {
		for vi, v := range []string{"x", "a b;c=\"d, e\" <f>\t(g)", "one\r\n two\r\n\tthree", "\xc3\xa9\xe4\xb8\xad %41: \\"} {
			if vi > 0 && vi != 1+len(h.name)%3 {
				continue
			}
			put(h.field, strconv.Itoa(vi), func(m *sip.Msg) { *h.get(m) = v })
		}
	}
	for _, h := range addrHdrs {
		for i := range rtAddrs {
			put(h.field, fmt.Sprint(i), func(m *sip.Msg) { *addrField(m, h.field) = addrList(i) })
		}
		for _, l := range [][]int{{0, 1}, {4, 5, 2}, {7, 7}, {3, 0, 6, 1}} {
			put(h.field, fmt.Sprint(l), func(m *sip.Msg) { *addrField(m, h.field) = addrList(l...) })
		}
	}
	for _, l := range [][]int{{0}, {1}, {2}, {3}, {4}, {5}, {0, 1}, {2, 2}, {5, 4, 3}, {1, 0, 2, 3}, {}} {
		put("Via", fmt.Sprint(l), func(m *sip.Msg) { m.Via = viaList(l...) })
	}
	for _, n := range []int{1, 2, 69, 70, 71, 255, 1<<32 - 1} {
		put("MaxForwards", fmt.Sprint(n), func(m *sip.Msg) { m.MaxForwards = n })
		put("Expires", fmt.Sprint(n), func(m *sip.Msg) { m.Expires = n })
		put("MinExpires", fmt.Sprint(n), func(m *sip.Msg) { m.MinExpires = n })
		put("CSeq", fmt.Sprint(n), func(m *sip.Msg) { m.CSeq = n })
	}
	put("CSeq", "0", func(m *sip.Msg) { m.CSeq = 0 })
	for _, s := range []string{"ACK", "REGISTER", "x-!%*_+`'~."} {
		put("CSeqMethod", s, func(m *sip.Msg) { m.CSeqMethod = s })
		put("Method", s, func(m *sip.Msg) { m.Method = s })
	}
	put("Method", "default", func(m *sip.Msg) { m.Method = "" })
	for _, s := range []string{"a", "a@b", "<\"{}()>?/\\:[]"} {
		put("CallID", s, func(m *sip.Msg) { m.CallID = s })
	}
	for _, s := range [][2]uint8{{2, 0}, {1, 0}, {3, 7}, {255, 255}} {
		put("Version", fmt.Sprint(s), func(m *sip.Msg) { m.VersionMajor, m.VersionMinor = s[0], s[1] })
	}
	for _, s := range []string{"OK", "Very (fine); thanks, 100%!?", "\xc3\xa9\xe4\xb8\xad", " a\tb "} {
		put("Phrase", s, func(m *sip.Msg) { m.Phrase = s })
	}
	for i, a := range rtAddrs {
		put("Request", fmt.Sprint(i), func(m *sip.Msg) { m.Request = a.Uri })
	}
	xh := func(kv ...string) func(m *sip.Msg) {
		return func(m *sip.Msg) {
			m.XHeader = nil
			for i := 0; i < len(kv); i += 2 {
				m.XHeader = &sip.XHeader{Name: kv[i], Value: []byte(kv[i+1]), Next: m.XHeader}
			}
		}
	}
	put("XHeader", "1", xh("X-a", "b"))
	put("XHeader", "3", xh("P-Foo", "1, 2", "X", "\xc3\xa9", "P-Foo", "one\r\n two"))
	put("XHeader", "similar", xh("Viax", "1", "To-", "2", "Content-Lengths", "3", "Call-I", "4", "x", "5"))
	put("XHeader", "empty", xh("X-e", ""))
	body := func(p sip.Payload) func(m *sip.Msg) { return func(m *sip.Msg) { m.Payload = p } }
	put("XHeader", "long", xh("X-"+strings.Repeat("n", 500), strings.Repeat("v ", 5000)+"v"))
	put("Subject", "long", func(m *sip.Msg) { m.Subject = strings.Repeat("s ", 5000) + "s" })
	put("Via", "many", func(m *sip.Msg) { m.Via = viaList(make([]int, 300)...) })
	put("RecordRoute", "many", func(m *sip.Msg) { m.RecordRoute = addrList(make([]int, 300)...) })
	put("Payload", "text", body(&sip.MiscPayload{T: "text/plain", D: []byte("hi\r\n\r\nthere\r\n")}))
	put("Payload", "bytes", body(&sip.MiscPayload{T: "application/octet-stream", D: func() []byte {
		var b []byte
		for i := 0; i < 256; i++ {
			b = append(b, byte(i))
		}
		return b
	}()}))
	put("Payload", "long", body(&sip.MiscPayload{T: "a/b", D: bytes.Repeat([]byte("0123456789"), 1000)}))
	put("Payload", "headers", body(&sip.MiscPayload{T: "message/sipfrag", D: []byte("Via: x\r\nContent-Length: 0\r\n\r\n")}))
	put("Payload", "sdp", body(func() sip.Payload {
		s := sdp.New(&net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40}, sdp.ULAWCodec, sdp.DTMFCodec)
		s.Origin = sdp.Origin{User: "-", ID: "1", Version: "2", Addr: "10.0.0.1"}
		s.Session, s.Time, s.Ptime = "x", "0 0", 20
		s.Attrs = append(s.Attrs, [2]string{"a", "b"})
		return s
	}()))
	return
}()

func reqOnly(o option) bool { return o.field == "Method" || o.field == "Request" }

func rtBase(kind int) *sip.Msg {
	m := &sip.Msg{From: addrList(1), To: addrList(0), CallID: "c", CSeq: 7, CSeqMethod: "INVITE", Via: viaList(1)}
	if kind == 0 {
		m.Method, m.Request = "INVITE", uri("sip", "", "", "h", 0)
	} else {
		m.Status = []int{0, 200, 486}[kind]
	}
	return m
}

func init() {
	mc.Add(&mc.Suite{Prop: "C04", Name: "field-pairs", Bound: "every ordered pair of field settings (about 260 settings over every field of a message) on a request and on two responses",
		N: func() int64 { n := int64(len(options)); return n * n * 3 },
		Case: func(x *mc.X, i int64) {
			n := int64(len(options))
			a, b := options[i/3%n], options[i/3/n]
			if a.field == b.field && a.name != b.name {
				x.Skip()
			}
			m := rtBase(int(i % 3))
			if i%3 > 0 && (reqOnly(a) || reqOnly(b)) {
				x.Skip()
			}
			a.do(m)
			b.do(m)
			roundTrip(x, m, fmt.Sprintf("%s + %s on %s", a.name, b.name, []string{"request", "200", "486"}[i%3]))
		}})
	mc.Add(&mc.Suite{Prop: "C04", Name: "field-triples", Bound: "every unordered triple of settings of different fields, on a request and a response", Thor: true,
		N: func() int64 { n := int64(len(options)); return n * n * n },
		Case: func(x *mc.X, i int64) {
			n := int64(len(options))
			j, k, l := i%n, i/n%n, i/n/n
			if j >= k || k >= l || options[j].field == options[k].field || options[k].field == options[l].field {
				x.Skip()
			}
			for kind := 0; kind < 2; kind++ {
				m := rtBase(kind)
				if kind > 0 && (reqOnly(options[j]) || reqOnly(options[k]) || reqOnly(options[l])) {
					continue
				}
				options[j].do(m)
				options[k].do(m)
				options[l].do(m)
				roundTrip(x, m, fmt.Sprintf("%s + %s + %s, kind %d", options[j].name, options[k].name, options[l].name, kind))
			}
		}})
	mc.Add(&mc.Suite{Prop: "C04", Name: "presence", Bound: "all fields at once, all but one, and all but two, in a request and a response",
		N: func() int64 { return 64 * 64 * 2 },
		Case: func(x *mc.X, i int64) {
			var fs []string
			seen := map[string]bool{}
			for _, o := range options {
				if !seen[o.field] {
					seen[o.field] = true
					fs = append(fs, o.field)
				}
			}
			a, b := int(i/2%64), int(i/128)
			if len(fs) > 63 {
				panic("more fields than expected")
			}
			m := rtBase(int(i % 2))
			for k, f := range fs {
				if k == a || k == b {
					continue
				}
				for _, o := range options {
					if o.field == f && (i%2 == 0 || !reqOnly(o)) {
						o.do(m)
						break
					}
				}
			}
			roundTrip(x, m, fmt.Sprintf("all fields but %d and %d, kind %d", a, b, i%2))
		}})
	mc.Add(&mc.Suite{Prop: "C04", Name: "lists", Bound: "all address lists of up to 3 (thorough: 4) of 8 addresses in each of the 7 address headers; all Via chains of up to 4 of 6; in a request and a response",
		N: func() int64 {
			n := int64(1)
			for k := 0; k < mc.Pick(3, 4); k++ {
				n *= int64(len(rtAddrs) + 1)
			}
			return n
		},
		Case: func(x *mc.X, i int64) {
			var l []int
			n := int64(len(rtAddrs) + 1)
			for k, j := 0, i; k < mc.Pick(3, 4); k++ {
				if j%n > 0 {
					l = append(l, int(j%n)-1)
				}
				j /= n
			}
			for _, h := range addrHdrs {
				m := rtBase(int(i % 2))
				if len(l) == 0 && (h.field == "From" || h.field == "To") {
					continue
				}
				*addrField(m, h.field) = addrList(l...)
				roundTrip(x, m, fmt.Sprintf("%s %v", h.field, l))
			}
			if i < 7*7*7*7 {
				var v []int
				for k, j := 0, i; k < 4; k++ {
					if j%7 > 0 {
						v = append(v, int(j%7)-1)
					}
					j /= 7
				}
				m := rtBase(int(i % 2))
				m.Via = viaList(v...)
				roundTrip(x, m, fmt.Sprintf("Via %v", v))
			}
		}})
	mc.Add(&mc.Suite{Prop: "C04", Name: "parameter-lists", Bound: "all lists of up to 3 parameters of 9 on an address, a Via, a URI and as URI headers",
		N: func() int64 { return 10 * 10 * 10 },
		Case: func(x *mc.X, i int64) {
			ps := [][2]string{{"tag", "1"}, {"TAG", "2"}, {"lr", ""}, {"branch", "z9hG4bK-1"}, {"q", "0.5"}, {"rport", ""}, {"x", "a b"}, {"x", "\"\\"}, {"y", "%"}}
			var p *sip.Param
			var up *sip.URIParam
			var uh *sip.URIHeader
			for k, j := 0, i; k < 3; k++ {
				if c := j % 10; c > 0 {
					n, v := ps[c-1][0], ps[c-1][1]
					p = &sip.Param{Name: n, Value: v, Next: p}
					up = &sip.URIParam{Name: n, Value: v, Next: up}
					uh = &sip.URIHeader{Name: n, Value: v, Next: uh}
				}
				j /= 10
			}
			m := rtBase(int(i % 2))
			m.To.Param = p
			m.Via.Param = p
			m.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "h", Param: up, Header: uh}, Next: &sip.Addr{Uri: uri("sip", "", "", "i", 0), Param: p}}
			if m.Status == 0 {
				m.Request = &sip.URI{Scheme: "sip", Host: "h", Param: up, Header: uh}
			}
			roundTrip(x, m, fmt.Sprintf("parameters %s", dumpParam(p)))
		}})
	mc.Add(&mc.Suite{Prop: "C04", Name: "numbers", Bound: "status 1..999 with and without phrase; every version; every Via and URI port; body lengths 0..2000",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			n := int(i)
			if n >= 100 && n < 1000 {
				m := rtBase(1)
				m.Status = n
				x.Check(sip.Phrase(n) == canonical(m).Phrase || n == 504, fmt.Sprintf("phrase of %d", n), "%q", sip.Phrase(n))
				if n != 504 {
					roundTrip(x, m, fmt.Sprintf("status %d", n))
				}
				m.Phrase = "other"
				roundTrip(x, m, fmt.Sprintf("status %d with phrase", n))
				for _, method := range []string{"REGISTER", "SUBSCRIBE"} {
					m.CSeqMethod, m.Expires, m.MinExpires, m.Contact = method, n%2*60, 1-n%2, &sip.Addr{Uri: uri("sip", "", "", "h", 0)}
					roundTrip(x, m, fmt.Sprintf("status %d to %s", n, method))
				}
			}
			m := rtBase(0)
			m.VersionMajor, m.VersionMinor = uint8(n>>8), uint8(n)
			roundTrip(x, m, fmt.Sprintf("version %d.%d", m.VersionMajor, m.VersionMinor))
			m = rtBase(n % 2)
			m.Via.Port = uint16(n)
			m.To.Uri = uri("sip", "", "", "h", uint16(n))
			m.MaxForwards, m.Expires, m.CSeq = n, n, n
			roundTrip(x, m, fmt.Sprintf("ports %d", n))
			if n > 0 && n <= 2000 {
				m = rtBase(n % 2)
				m.Payload = &sip.MiscPayload{T: "a/b", D: bytes.Repeat([]byte{'\n'}, n)}
				roundTrip(x, m, fmt.Sprintf("body of %d bytes", n))
			}
		}})
	mc.Add(&mc.Suite{Prop: "C04", Name: "parsed", Bound: "every message that the grammar's transition cover yields (each state x one byte per behaviour, completed, when valid UTF-8), written and read back, provided it has what a written message must have",
		N: func() int64 { return int64(len(getWalks().states)) },
		Case: func(x *mc.X, i int64) {
			w := getWalks()
			s := w.states[i]
			for _, c := range w.class[s] {
				p := w.prefix[s] + string([]byte{byte(c)})
				r := refMsg([]byte(p), nil)
				if r.kind == refIncomplete {
					p += w.suffix[r.cs]
				}
				if !utf8.ValidString(p) {
					continue // cut when written, see C06
				}
				m, err := sip.ParseMsg([]byte(p))
				if err != nil {
					continue
				}
				// what a message must have
				if m.From == nil {
					m.From = addrList(1)
				}
				if m.To == nil {
					m.To = addrList(0)
				}
				if m.CallID == "" {
					m.CallID = "c"
				}
				if m.CSeqMethod == "" {
					m.CSeqMethod = "X"
				}
				if m.Status == 0 && m.Method == "" || m.Status == 0 && m.Request == nil {
					continue // status 000
				}
				m.VersionMajor |= 1
				roundTrip(x, m, "from "+clip([]byte(p)))
			}
		}})
}
