package siph

import (
	"fmt"
	"strings"

	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// A slot is a place in a message or URI that takes text of any length.
type slot struct {
	name string
	text func(s string) string // a whole message
	set  func(m *sip.Msg, s string)
}

const reqLine = "INVITE sip:h SIP/2.0\r\n"

func slots() []slot {
	hdr := func(name, pre, post string, set func(m *sip.Msg, s string)) slot {
		return slot{name, func(s string) string { return reqLine + pre + s + post + "\r\n\r\n" }, func(m *sip.Msg, s string) {
			startLines[0].do(m)
			set(m, s)
		}}
	}
	to := func(f func(a *sip.Addr, s string)) func(m *sip.Msg, s string) {
		return func(m *sip.Msg, s string) {
			m.To = &sip.Addr{Uri: uri("sip", "", "", "h", 0)}
			f(m.To, s)
		}
	}
	via := func(f func(v *sip.Via, s string)) func(m *sip.Msg, s string) {
		return func(m *sip.Msg, s string) {
			m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h"}
			f(m.Via, s)
		}
	}
	r := []slot{
		{"method", func(s string) string { return s + " sip:h SIP/2.0\r\n\r\n" }, func(m *sip.Msg, s string) { startLines[0].do(m); m.Method = s }},
		{"phrase", func(s string) string { return "SIP/2.0 200 " + s + "\r\n\r\n" }, func(m *sip.Msg, s string) { startLines[1].do(m); m.Phrase = s }},
		{"request", func(s string) string { return "INVITE sip:" + s + "@h SIP/2.0\r\n\r\n" }, func(m *sip.Msg, s string) { startLines[0].do(m); m.Request.User = s }},
		hdr("quoted display", "To: \"", "\" <sip:h>", to(func(a *sip.Addr, s string) { a.Display = s })),
		hdr("display", "To: ", " <sip:h>", to(func(a *sip.Addr, s string) { a.Display = s })),
		hdr("scheme", "To: <", ":h>", to(func(a *sip.Addr, s string) { a.Uri.Scheme = s })),
		hdr("user", "To: <sip:", "@h>", to(func(a *sip.Addr, s string) { a.Uri.User = s })),
		hdr("password", "To: <sip:u:", "@h>", to(func(a *sip.Addr, s string) { a.Uri.User, a.Uri.Pass = "u", s })),
		hdr("host", "To: <sip:", ">", to(func(a *sip.Addr, s string) { a.Uri.Host = s })),
		hdr("bare host", "To: sip:", "", to(func(a *sip.Addr, s string) { a.Uri.Host = s })),
		hdr("uri parameter", "To: <sip:h;", ">", to(func(a *sip.Addr, s string) { a.Uri.Param = &sip.URIParam{Name: s} })),
		hdr("uri parameter's value", "To: <sip:h;p=", ">", to(func(a *sip.Addr, s string) { a.Uri.Param = &sip.URIParam{Name: "p", Value: s} })),
		hdr("uri header", "To: <sip:h?", ">", to(func(a *sip.Addr, s string) { a.Uri.Header = &sip.URIHeader{Name: s} })),
		hdr("uri header's value", "To: <sip:h?p=", ">", to(func(a *sip.Addr, s string) { a.Uri.Header = &sip.URIHeader{Name: "p", Value: s} })),
		hdr("parameter", "To: <sip:h>;", "", to(func(a *sip.Addr, s string) { a.Param = params(s, "") })),
		hdr("parameter's value", "To: <sip:h>;p=", "", to(func(a *sip.Addr, s string) { a.Param = params("p", s) })),
		hdr("quoted value", "To: <sip:h>;p=\"", "\"", to(func(a *sip.Addr, s string) { a.Param = params("p", s) })),
		hdr("protocol", "Via: ", "/2.0/UDP h", via(func(v *sip.Via, s string) { v.Protocol = s })),
		hdr("version", "Via: SIP/", "/UDP h", via(func(v *sip.Via, s string) { v.Version = s })),
		hdr("transport", "Via: SIP/2.0/", " h", via(func(v *sip.Via, s string) { v.Transport = s })),
		hdr("via host", "Via: SIP/2.0/UDP ", "", via(func(v *sip.Via, s string) { v.Host = s })),
		hdr("via parameter", "v: SIP/2.0/UDP h;", "", via(func(v *sip.Via, s string) { v.Param = params(s, "") })),
		hdr("via parameter's value", "Via: SIP/2.0/UDP h;p=", ";q", via(func(v *sip.Via, s string) { v.Param = params("p", s, "q", "") })),
		hdr("call", "Call-ID: ", "", func(m *sip.Msg, s string) { m.CallID = s }),
		hdr("sequence's method", "CSeq: 1 ", "", func(m *sip.Msg, s string) { m.CSeq, m.CSeqMethod = 1, s }),
		hdr("header name", "", ": v", func(m *sip.Msg, s string) { m.XHeader = &sip.XHeader{Name: s, Value: []byte("v")} }),
		hdr("header value", "X: ", "", func(m *sip.Msg, s string) { m.XHeader = &sip.XHeader{Name: "X", Value: []byte(s)} }),
		hdr("folded value", "X: a\r\n ", "\r\n\tb", func(m *sip.Msg, s string) {
			m.XHeader = &sip.XHeader{Name: "X", Value: []byte("a\r\n " + s + "\r\n\tb")}
		}),
		{"content type", func(s string) string { return reqLine + "Content-Type: a/" + s + "\r\n\r\nb" }, func(m *sip.Msg, s string) {
			startLines[0].do(m)
			m.Payload = &sip.MiscPayload{T: "a/" + s, D: []byte("b")}
		}},
		{"body", func(s string) string {
			return reqLine + "Content-Type: a/b\r\n" + fmt.Sprintf("Content-Length: %d\r\n\r\n", len(s)) + s
		}, func(m *sip.Msg, s string) {
			startLines[0].do(m)
			m.Payload = &sip.MiscPayload{T: "a/b", D: []byte(s)}
		}},
		{"body without a length", func(s string) string { return reqLine + "Content-Type: a/b\r\n\r\n" + s }, func(m *sip.Msg, s string) {
			startLines[0].do(m)
			m.Payload = &sip.MiscPayload{T: "a/b", D: []byte(s)}
		}},
	}
	for _, h := range strHdrs {
		r = append(r, hdr(h.name, h.name+": ", "", func(m *sip.Msg, s string) { *h.get(m) = s }))
	}
	return r
}

// sizeList is every small size and the neighbourhood of each power of two.
func sizeList(small, most int) (r []int) {
	for n := 1; n <= small; n++ {
		r = append(r, n)
	}
	for p := 1; p <= most; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + p/2} {
			if n > small && n <= most+1 {
				r = append(r, n)
			}
		}
	}
	return
}

// A run is something that can be repeated any number of times.
type run struct {
	name string
	text func(n int) string
	set  func(m *sip.Msg, n int)
}

func runs() []run {
	var r []run
	each := func(n int, f func(k int) string) string {
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteString(f(k))
		}
		return b.String()
	}
	add := func(name, pre, post string, f func(k int) string, set func(m *sip.Msg, k int), before func(m *sip.Msg)) {
		r = append(r, run{name, func(n int) string { return reqLine + pre + each(n, f) + post + "\r\n" }, func(m *sip.Msg, n int) {
			startLines[0].do(m)
			if before != nil {
				before(m)
			}
			for k := 0; k < n; k++ {
				set(m, k)
			}
		}})
	}
	bare := func(m *sip.Msg) { m.To = &sip.Addr{Uri: uri("sip", "", "", "h", 0)} }
	for _, h := range addrHdrs {
		app := func(m *sip.Msg, k int) {
			p := addrField(m, h.field)
			*lastp(p) = &sip.Addr{Uri: uri("sip", fmt.Sprint(k), "", "h", 0)}
		}
		add(h.name+" lines", "", "", func(k int) string { return fmt.Sprintf("%s: <sip:%d@h>\r\n", h.name, k) }, app, nil)
		add(h.name+" list", h.name+": <sip:first@h>", "\r\n", func(k int) string { return fmt.Sprintf(",<sip:%d@h>", k) }, app, func(m *sip.Msg) {
			*addrField(m, h.field) = &sip.Addr{Uri: uri("sip", "first", "", "h", 0)}
		})
	}
	app := func(m *sip.Msg, k int) {
		m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: fmt.Sprint("h", k), Next: m.Via}
	}
	turn := func(t run) run { // the list was built back to front
		set := t.set
		t.set = func(m *sip.Msg, n int) {
			set(m, n)
			var l *sip.Via
			for v := m.Via; v != nil; {
				next := v.Next
				v.Next, l = l, v
				v = next
			}
			m.Via = l
		}
		return t
	}
	add("Via lines", "", "", func(k int) string { return fmt.Sprintf("Via: SIP/2.0/UDP h%d\r\n", k) }, app, nil)
	r[len(r)-1] = turn(r[len(r)-1])
	add("Via list", "Via: SIP/2.0/UDP first", "\r\n", func(k int) string { return fmt.Sprintf(", SIP/2.0/UDP h%d", k) }, app, func(m *sip.Msg) {
		m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "first"}
	})
	r[len(r)-1] = turn(r[len(r)-1])
	add("Via parameters", "Via: SIP/2.0/UDP h", "\r\n", func(k int) string { return fmt.Sprintf(";p%d=%d", k, k) }, func(m *sip.Msg, k int) {
		m.Via.Param = &sip.Param{Name: fmt.Sprint("p", k), Value: fmt.Sprint(k), Next: m.Via.Param}
	}, func(m *sip.Msg) { m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h"} })
	add("parameters", "To: <sip:h>", "\r\n", func(k int) string { return fmt.Sprintf(";p%d=\"%d\"", k, k) }, func(m *sip.Msg, k int) {
		m.To.Param = &sip.Param{Name: fmt.Sprint("p", k), Value: fmt.Sprint(k), Next: m.To.Param}
	}, bare)
	add("uri parameters", "To: <sip:h", ">\r\n", func(k int) string { return fmt.Sprintf(";p%d=%d", k, k) }, func(m *sip.Msg, k int) {
		m.To.Uri.Param = &sip.URIParam{Name: fmt.Sprint("p", k), Value: fmt.Sprint(k), Next: m.To.Uri.Param}
	}, bare)
	add("uri headers", "To: <sip:h?first", ">\r\n", func(k int) string { return fmt.Sprintf("&p%d=%d", k, k) }, func(m *sip.Msg, k int) {
		m.To.Uri.Header = &sip.URIHeader{Name: fmt.Sprint("p", k), Value: fmt.Sprint(k), Next: m.To.Uri.Header}
	}, func(m *sip.Msg) {
		bare(m)
		m.To.Uri.Header = &sip.URIHeader{Name: "first"}
	})
	add("extension headers", "", "", func(k int) string { return fmt.Sprintf("X%d: %d\r\n", k%7, k) }, func(m *sip.Msg, k int) {
		m.XHeader = &sip.XHeader{Name: fmt.Sprint("X", k%7), Value: []byte(fmt.Sprint(k)), Next: m.XHeader}
	}, nil)
	add("folds", "Subject: a", "\r\n", func(k int) string { return "\r\n " + fmt.Sprint(k) }, func(m *sip.Msg, k int) { m.Subject += "\r\n " + fmt.Sprint(k) }, func(m *sip.Msg) { m.Subject = "a" })
	add("blanks", "Subject:", "a\r\n", func(k int) string { return " " }, func(m *sip.Msg, k int) {}, func(m *sip.Msg) { m.Subject = "a" })
	add("blanks before the colon", "Subject", ":a\r\n", func(k int) string { return " " }, func(m *sip.Msg, k int) {}, func(m *sip.Msg) { m.Subject = "a" })
	add("escapes", "To: <sip:", "@h>\r\n", func(k int) string { return fmt.Sprintf("%%%02x", 'a'+k%26) }, func(m *sip.Msg, k int) { m.To.Uri.User += string(rune('a' + k%26)) }, bare)
	add("quoted pairs", "To: \"", "\"<sip:h>\r\n", func(k int) string { return "\\\"" }, func(m *sip.Msg, k int) { m.To.Display += "\"" }, bare)
	add("same header", "", "", func(k int) string { return fmt.Sprintf("Subject: %d\r\n", k) }, func(m *sip.Msg, k int) { m.Subject = fmt.Sprint(k) }, nil)
	return r
}

// written makes of a message that can be parsed one that can be written.
func written(m *sip.Msg) *sip.Msg {
	if m.From == nil {
		m.From = addrList(1)
	}
	if m.To == nil {
		m.To = addrList(0)
	}
	if m.CallID == "" {
		m.CallID = "c"
	}
	if m.CSeqMethod == "" {
		m.CSeqMethod = "X"
	}
	return m
}

func init() {
	sl, rs := slots(), runs()
	sizes := sizeList(mc.Pick(300, 4200), 1<<16)
	counts := sizeList(mc.Pick(140, 300), mc.Pick(256, 1024))
	texts := int64(len(sl) * len(sizes))
	total := func() int64 { return texts + int64(len(rs)*len(counts)) }
	bound := fmt.Sprintf("each of %d places for text filled with 1..%d bytes and about as many as each power of two up to 65536, and each of %d kinds of list, fold, blank and escape repeated 1..%d times and so up to %d",
		len(sl), mc.Pick(300, 4200), len(rs), mc.Pick(140, 300), mc.Pick(256, 1024))
	pick := func(i int64) (text string, m *sip.Msg, key string) {
		m = &sip.Msg{}
		if i < texts {
			s, n := sl[i%int64(len(sl))], sizes[i/int64(len(sl))]
			v := strings.Repeat("qwzty", n/5+1)[:n]
			s.set(m, v)
			return s.text(v), m, fmt.Sprintf("%s of %d bytes", s.name, n)
		}
		i -= texts
		r, n := rs[i%int64(len(rs))], counts[i/int64(len(rs))]
		r.set(m, n)
		return r.text(n), m, fmt.Sprintf("%d %s", n, r.name)
	}
	mc.Add(&mc.Suite{Prop: "C02", Name: "sizes", Bound: bound, N: total,
		Case: func(x *mc.X, i int64) {
			text, m, key := pick(i)
			got, err := sip.ParseMsg([]byte(text))
			x.Step(1)
			x.Checked(1)
			if err != nil || got == nil {
				x.Violate("refused: "+key, "a grammatical message is refused: %v", err)
			}
			x.Eq(dump(got), dump(m), "meaning of "+key)
			x.CoverH("state", mc.Hash(key))
		}})
	mc.Add(&mc.Suite{Prop: "C04", Name: "sizes", Bound: bound, N: total,
		Case: func(x *mc.X, i int64) {
			_, m, key := pick(i)
			roundTrip(x, written(m), key)
		}})
	mc.Add(&mc.Suite{Prop: "C07", Name: "sizes", Bound: "copies of those of C04", N: total,
		Case: func(x *mc.X, i int64) {
			_, m, key := pick(i)
			c := m.Copy()
			x.Step(1)
			x.Checked(1)
			x.Eq(dump(c), dump(m), "copy of "+key)
		}})
	mc.Add(&mc.Suite{Prop: "C03", Name: "sizes", Bound: fmt.Sprintf("each part of a URI filled with 1..%d bytes, plain and escaped, and about as many as each power of two up to 65536; 1..%d parameters and headers and so up to %d", mc.Pick(300, 4200), mc.Pick(140, 300), mc.Pick(256, 1024)),
		N: func() int64 { return int64(len(sizes) + len(counts)) },
		Case: func(x *mc.X, i int64) {
			check := func(t string, u *sip.URI, key string) {
				got, err := sip.ParseURI([]byte(t))
				x.Step(1)
				x.Checked(1)
				if err != nil || dumpURI(got) != dumpURI(u) {
					x.Violate("meaning of "+key, "%q\ngot  %s (%v)\nwant %s", clip([]byte(t)), dumpURI(got), err, dumpURI(u))
				}
			}
			if i < int64(len(sizes)) {
				n := sizes[i]
				v := strings.Repeat("qwzty", n/5+1)[:n]
				e, d := strings.Repeat("%00%fF%40", n/3+1)[:3*n], strings.Repeat("\x00\xff@", n/3+1)[:n]
				k := func(s string) string { return fmt.Sprintf("%s of %d bytes", s, n) }
				check(v+":h", uri(v, "", "", "h", 0), k("scheme"))
				check("sip:"+v, uri("sip", "", "", v, 0), k("host"))
				check("sip:"+strings.ToUpper(v)+":1", uri("sip", "", "", v, 1), k("host"))
				check("sip:["+strings.Repeat("0", n)+"::]", uri("sip", "", "", strings.Repeat("0", n)+"::", 0), k("address"))
				for _, p := range [][2]string{{v, v}, {e, d}} {
					check("sip:"+p[0]+"@h", uri("sip", p[1], "", "h", 0), k("user"))
					check("sip:u:"+p[0]+"@h", uri("sip", "u", p[1], "h", 0), k("password"))
					u := uri("sip", "", "", "h", 0)
					u.Param = &sip.URIParam{Name: "a", Value: p[1], Next: &sip.URIParam{Name: p[1]}}
					u.Header = &sip.URIHeader{Name: "a", Value: p[1], Next: &sip.URIHeader{Name: p[1]}}
					check("sip:h;"+p[0]+";a="+p[0]+"?"+p[0]+"&a="+p[0], u, k("parameter"))
				}
				x.CoverH("state", mc.Hash(fmt.Sprint("size", n)))
				return
			}
			n := counts[i-int64(len(sizes))]
			u := uri("sip", "", "", "h", 0)
			var ps, hs []string
			for k := 0; k < n; k++ {
				ps = append(ps, fmt.Sprintf("p%d=%d", k%9, k))
				hs = append(hs, fmt.Sprintf("h%d=%d", k%9, k))
				u.Param = &sip.URIParam{Name: fmt.Sprint("p", k%9), Value: fmt.Sprint(k), Next: u.Param}
				u.Header = &sip.URIHeader{Name: fmt.Sprint("h", k%9), Value: fmt.Sprint(k), Next: u.Header}
			}
			check("sip:h;"+strings.Join(ps, ";")+"?"+strings.Join(hs, "&"), u, fmt.Sprint(n, " parameters"))
			x.CoverH("state", mc.Hash(fmt.Sprint("count", n)))
		}})
}
