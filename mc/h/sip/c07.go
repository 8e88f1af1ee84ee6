package siph

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

// leaf is one changeable place reachable from a value.
type leaf struct {
	path string
	set  func() (undo func())
}

// leaves finds every field that can be changed through v: text, numbers, flags,
// bytes, and every pointer (replaced by nil). Payload and SourceAddr are opaque.
func leaves(v reflect.Value, path string, out *[]leaf) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.CanSet() {
			*out = append(*out, leaf{path + "=other", func() func() {
				old := reflect.New(v.Type()).Elem()
				old.Set(v)
				if v.IsNil() {
					v.Set(reflect.New(v.Type().Elem()))
				} else {
					v.Set(reflect.Zero(v.Type()))
				}
				return func() { v.Set(old) }
			}})
		}
		if !v.IsNil() {
			leaves(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "Payload" || f.Name == "SourceAddr" || !f.IsExported() {
				continue
			}
			leaves(v.Field(i), path+"."+f.Name, out)
		}
	case reflect.String:
		*out = append(*out, leaf{path, func() func() {
			old := v.String()
			v.SetString(old + "~")
			return func() { v.SetString(old) }
		}})
	case reflect.Int:
		*out = append(*out, leaf{path, func() func() {
			old := v.Int()
			v.SetInt(old + 1)
			return func() { v.SetInt(old) }
		}})
	case reflect.Uint8, reflect.Uint16:
		*out = append(*out, leaf{path, func() func() {
			old := v.Uint()
			v.SetUint(old ^ 1)
			return func() { v.SetUint(old) }
		}})
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	default:
		panic("kind " + v.Kind().String() + " at " + path)
	}
}

// independent checks that b, a copy of a, says the same and shares nothing
// changeable with it.
func independent(x *mc.X, a, b any, show func(v any) string, key string) {
	sa, sb := show(a), show(b)
	x.Eq(sb, sa, "the copy differs: "+key)
	for d, side := range []string{"the original", "the copy"} {
		c, o := a, b
		if d == 1 {
			c, o = b, a
		}
		var ls []leaf
		leaves(reflect.ValueOf(c), "", &ls)
		for _, l := range ls {
			undo := l.set()
			if s := show(o); s != sa {
				x.Violate(fmt.Sprintf("changing %s of %s shows in the other: %s", l.path, side, key), "was %s\nnow %s", sa, s)
			}
			x.Step(1)
			x.Checked(1)
			undo()
			x.CoverH("distinct", mc.Hash(key+side+l.path))
		}
		// all of them at once, undone in reverse
		var un []func()
		for _, l := range ls {
			if !strings.HasSuffix(l.path, "=other") {
				un = append(un, l.set())
			}
		}
		x.Eq(show(o), sa, fmt.Sprintf("changing everything of %s shows in the other: %s", side, key))
		for i := len(un) - 1; i >= 0; i-- {
			un[i]()
		}
		x.Eq(show(c), sa, "undo "+key)
	}
}

func genParam(n int) *sip.Param {
	var p *sip.Param
	for i := 0; i < n; i++ {
		p = &sip.Param{Name: fmt.Sprint("n", i), Value: fmt.Sprint("v", i), Next: p}
	}
	return p
}

func genURI(np, nh int) *sip.URI {
	u := uri("sip", "u", "p", "h", 7)
	for i := 0; i < np; i++ {
		u.Param = &sip.URIParam{Name: fmt.Sprint("n", i), Value: fmt.Sprint("v", i), Next: u.Param}
	}
	for i := 0; i < nh; i++ {
		u.Header = &sip.URIHeader{Name: fmt.Sprint("n", i), Value: fmt.Sprint("v", i), Next: u.Header}
	}
	return u
}

func genAddr(n, np, nu, nh int) *sip.Addr {
	var l *sip.Addr
	for i := 0; i < n; i++ {
		l = &sip.Addr{Uri: genURI(nu, nh), Display: fmt.Sprint("d", i), Param: genParam(np), Next: l}
	}
	return l
}

func genVia(n, np int) *sip.Via {
	var l *sip.Via
	for i := 0; i < n; i++ {
		l = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: fmt.Sprint("h", i), Port: 9, Param: genParam(np), Next: l}
	}
	return l
}

func genX(n int) *sip.XHeader {
	var l *sip.XHeader
	for i := 0; i < n; i++ {
		l = &sip.XHeader{Name: fmt.Sprint("X-", i), Value: []byte(fmt.Sprint("value", i)), Next: l}
	}
	return l
}

func showAny(v any) string {
	switch t := v.(type) {
	case *sip.Msg:
		return dump(t)
	case *sip.Addr:
		return dumpAddrs(t)
	case *sip.Via:
		return dumpVias(t)
	case *sip.URI:
		return dumpURI(t)
	case *sip.Param:
		return dumpParam(t)
	case *sip.URIParam:
		return dumpURI(&sip.URI{Param: t})
	case *sip.URIHeader:
		return dumpURI(&sip.URI{Header: t})
	case *sip.XHeader:
		return dump(&sip.Msg{XHeader: t})
	}
	panic("show")
}

// fullMsg has every field set, its lists with the given lengths.
func fullMsg(kind, n, np, nu, nh int) *sip.Msg {
	m := &sip.Msg{VersionMajor: 2, VersionMinor: 1, CallID: "c", CSeq: 3, CSeqMethod: "X", MaxForwards: 9, Expires: 4, MinExpires: 5, XHeader: genX(n), Via: genVia(n, np)}
	if kind == 0 {
		m.Method, m.Request = "X", genURI(nu, nh)
	} else {
		m.Status, m.Phrase = 200, "OK"
	}
	for i, h := range strHdrs {
		*h.get(m) = fmt.Sprint("t", i)
	}
	for _, h := range addrHdrs {
		*addrField(m, h.field) = genAddr(n, np, nu, nh)
	}
	m.SourceAddr = &net.UDPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}
	m.Payload = &sip.MiscPayload{T: "a/b", D: []byte("xyz")}
	return m
}

func init() {
	mc.Add(&mc.Suite{Prop: "C07", Name: "copies", Bound: "messages, addresses, Vias, URIs, parameters and headers with list lengths 0..3 in every dimension; every single field reachable from either side changed in turn, and all at once",
		N: func() int64 { return 4 * 4 * 4 * 4 * 2 },
		Case: func(x *mc.X, i int64) {
			n, np, nu, nh := int(i%4), int(i/4%4), int(i/16%4), int(i/64%4)
			kind := int(i / 256)
			key := fmt.Sprintf("%d items, %d parameters, %d URI parameters, %d URI headers", n, np, nu, nh)
			do := func(what string, a any, b func() any) {
				before := showAny(a)
				var c any
				x.NoCrash("crash copying "+what, func() { c = b() })
				x.Eq(showAny(a), before, "copying changed the original "+what+": "+key)
				if reflect.ValueOf(a).IsNil() {
					x.Check(reflect.ValueOf(c).IsNil(), "copy of nil "+what, "not nil")
					return
				}
				independent(x, a, c, showAny, what+" with "+key)
			}
			m := fullMsg(kind, n, np, nu, nh)
			do("message", m, func() any { return m.Copy() })
			c := m.Copy()
			if c.Payload != m.Payload && dumpPayload(c.Payload) != dumpPayload(m.Payload) || c.SourceAddr == nil || c.SourceAddr.String() != "1.2.3.4:5" {
				x.Violate("copy lost the payload or source", "%v %v", c.Payload, c.SourceAddr)
			}
			a := genAddr(n, np, nu, nh)
			do("address", a, func() any { return a.Copy() })
			v := genVia(n, np)
			do("Via", v, func() any { return v.Copy() })
			u := genURI(nu, nh)
			do("URI", u, func() any { return u.Copy() })
			do("URI parameter", u.Param, func() any { return u.Param.Copy() })
			do("URI header", u.Header, func() any { return u.Header.Copy() })
			p := genParam(np)
			do("parameter", p, func() any { return p.Copy() })
			h := genX(n)
			do("extension header", h, func() any { return h.Copy() })
			if i == 0 {
				var m *sip.Msg
				var u *sip.URI
				do("message", m, func() any { return m.Copy() })
				do("URI", u, func() any { return u.Copy() })
			}
		}})
	mc.Add(&mc.Suite{Prop: "C07", Name: "copies-of-settings", Bound: "a copy of a request or response with every pair of the C04 field settings",
		N: func() int64 { n := int64(len(options)); return n * n },
		Case: func(x *mc.X, i int64) {
			n := int64(len(options))
			a, b := options[i%n], options[i/n]
			if a.field > b.field {
				x.Skip()
			}
			for kind := 0; kind < 2; kind++ {
				m := rtBase(kind)
				a.do(m)
				b.do(m)
				s := dump(m)
				c := m.Copy()
				x.Step(1)
				key := fmt.Sprintf("%s + %s", a.name, b.name)
				x.Eq(dump(m), s, "copying changed the original: "+key)
				x.Eq(dump(c), s, "the copy differs: "+key)
				x.Eq(c.String(), m.String(), "the copy is written differently: "+key)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C07", Name: "copy-of-copy", Bound: "chains of 3 copies with each field of the middle one changed",
		N: func() int64 { return 32 },
		Case: func(x *mc.X, i int64) {
			m := fullMsg(int(i%2), 2, 2, int(i/2%4), int(i/8))
			s := dump(m)
			c := m.Copy()
			d := c.Copy()
			var ls []leaf
			leaves(reflect.ValueOf(c), "", &ls)
			for _, l := range ls {
				undo := l.set()
				if dump(m) != s || dump(d) != s {
					x.Violate("changing "+l.path+" of the middle copy", "")
				}
				undo()
				x.Step(1)
			}
		}})
	ops := []struct {
		name string
		do   func(m *sip.Msg)
	}{
		{"Msg.String", func(m *sip.Msg) { _ = m.String() }},
		{"Msg.Append", func(m *sip.Msg) { m.Append(bytes.NewBufferString("x")) }},
		{"Msg.Copy", func(m *sip.Msg) { m.Copy() }},
		{"Msg.IsResponse", func(m *sip.Msg) { m.IsResponse() }},
		{"URI.String", func(m *sip.Msg) { _ = m.Request.String() }},
		{"URI.Append", func(m *sip.Msg) { m.Request.Append(&bytes.Buffer{}) }},
		{"URI.CompareHostPort", func(m *sip.Msg) { m.Request.CompareHostPort(m.To.Uri) }},
		{"Addr.String", func(m *sip.Msg) { _ = m.To.String() }},
		{"Addr.CompareHostPort", func(m *sip.Msg) { m.To.CompareHostPort(m.From) }},
		{"Addr.Last", func(m *sip.Msg) { m.To.Last() }},
		{"Addr.Len", func(m *sip.Msg) { m.To.Len() }},
		{"Addr.Reversed", func(m *sip.Msg) { m.To.Reversed() }},
		{"Addr.Or", func(m *sip.Msg) { m.To.Or(m.From); (*sip.Addr)(nil).Or(m.To) }},
		{"Via.Append", func(m *sip.Msg) { m.Via.Append(&bytes.Buffer{}) }},
		{"Via.Last", func(m *sip.Msg) { m.Via.Last() }},
		{"Via.Detach", func(m *sip.Msg) { m.Via.Detach() }},
		{"Via.CompareHostPort", func(m *sip.Msg) { m.Via.CompareHostPort(m.Via.Next) }},
		{"Via.CompareBranch", func(m *sip.Msg) { m.Via.CompareBranch(m.Via.Last()) }},
		{"Param.Get", func(m *sip.Msg) { m.To.Param.Get("n0"); m.To.Param.Get("none"); m.Via.Param.Get("branch") }},
		{"URIParam.Get", func(m *sip.Msg) { m.To.Uri.Param.Get("n0"); m.To.Uri.Header.Get("n9") }},
		{"XHeader.Get", func(m *sip.Msg) { m.XHeader.Get("x-0"); m.XHeader.Get("none"); _ = m.XHeader.String() }},
		{"XHeader.Append", func(m *sip.Msg) { m.XHeader.Append(&bytes.Buffer{}) }},
		{"Param.Append", func(m *sip.Msg) { m.To.Param.Append(&bytes.Buffer{}) }},
		{"URI.GetPort", func(m *sip.Msg) { m.To.Uri.GetPort() }},
		{"ResponseError", func(m *sip.Msg) { _ = (&sip.ResponseError{Msg: m}).Error() }},
	}
	mc.Add(&mc.Suite{Prop: "C07", Name: "reading-changes-nothing", Bound: "every ordered pair of 25 reading operations on messages with lists of length 1..3 and quoting, default and IPv6 content; payloads included",
		N: func() int64 { return int64(len(ops)*len(ops)) * 6 },
		Case: func(x *mc.X, i int64) {
			n := int64(len(ops))
			k := int(i / n / n)
			m := fullMsg(0, 1+k%3, k, k, 3-k%3)
			if k > 2 {
				m = rtBase(0)
				m.To, m.From = addrList(k, 5, 6), addrList(7, 3)
				m.Via = viaList(0, k, 3, 1)
				m.XHeader = genX(k)
				s := sdp.New(&net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40}, sdp.ULAWCodec, sdp.DTMFCodec)
				m.Payload = s
				m.MaxForwards, m.Method, m.VersionMajor = 0, "", 0
				m.Via.Protocol, m.To.Uri.Scheme = "", ""
			}
			s := dump(m)
			for _, o := range []int64{i % n, i / n % n} {
				x.NoCrash("crash in "+ops[o].name, func() { ops[o].do(m) })
				x.Step(1)
				x.Eq(dump(m), s, fmt.Sprintf("%s changed what it read (%d)", ops[o].name, k))
			}
			x.CoverH("distinct", uint64(i)+1<<40)
		}})
	mc.Add(&mc.Suite{Prop: "C07", Name: "list-helpers", Bound: "Len, Last, Reversed, Or, Detach on lists of 0..12 items",
		N: func() int64 { return 13 },
		Case: func(x *mc.X, i int64) {
			n := int(i)
			a, v := genAddr(n, 1, 1, 1), genVia(n, 1)
			sa, sv := dumpAddrs(a), dumpVias(v)
			x.Check(a.Len() == n, "Len", "%d of %d", a.Len(), n)
			var items []string
			for p := a; p != nil; p = p.Next {
				items = append(items, dumpAddr(p))
			}
			r := a.Reversed()
			var back []string
			for p := r; p != nil; p = p.Next {
				back = append([]string{dumpAddr(p)}, back...)
			}
			x.Eq(strings.Join(back, "|"), strings.Join(items, "|"), fmt.Sprintf("Reversed of %d", n))
			x.Eq(dumpAddrs(a), sa, "Reversed changed the list")
			if n == 0 {
				x.Check(a.Last() == nil && v.Last() == nil && r == nil, "nil list", "")
				b := genAddr(1, 0, 0, 0)
				x.Check(a.Or(b) == b && a.Or(nil) == nil, "Or", "")
				return
			}
			x.Check(a.Last().Next == nil && dumpAddr(a.Last()) == items[n-1], "Last", "")
			x.Check(a.Or(genAddr(1, 0, 0, 0)) == a && a.Or(nil) == a, "Or", "")
			x.Check(v.Last().Next == nil && v.Last().Host == "h0", "Via.Last", "")
			d := v.Detach()
			x.Check(d.Next == nil && dumpVia(d) == dumpVia(v), "Detach", "%s", dumpVias(d))
			d.Host, d.Port, d.Next = "other", 1, d
			d.Param = &sip.Param{Name: "branch", Value: "new", Next: d.Param}
			x.Eq(dumpVias(v), sv, "changing the detached Via shows in the list")
			// changing a reversed list's order does not show in the original
			for p := r; p != nil; {
				q := p.Next
				p.Next = nil
				p.Display += "~"
				p = q
			}
			x.Eq(dumpAddrs(a), sa, "relinking the reversed list shows in the original")
		}})
}
