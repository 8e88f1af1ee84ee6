// Package siph checks the sip package.
package siph

import (
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

// The reference machines: the grammar's states and transitions, frozen when
// the properties were written, and interpreted here by a plain loop.

//go:embed data/msg.json
var msgJSON []byte

//go:embed data/uri.json
var uriJSON []byte

type dfa struct {
	Actions []string       `json:"actions"`
	Tables  [][]int        `json:"tables"`
	Entries map[string]int `json:"entries"`
	Start   int            `json:"start"`
	States  []struct {
		ID    int      `json:"id"`
		Final bool     `json:"final"`
		T     [][4]int `json:"t"`
		EOF   []any    `json:"eof"`
		Cond  [][3]int `json:"cond"`
	} `json:"states"`
	next  [][768]int16 // target+1, 0: no transition
	act   [][768]int16 // action table+1
	eof   []int16
	cond  [][256]bool
	first int // lowest final state
}

func loadDFA(b []byte) *dfa {
	d := &dfa{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	n := len(d.States)
	d.next, d.act, d.eof, d.cond = make([][768]int16, n), make([][768]int16, n), make([]int16, n), make([][256]bool, n)
	d.first = n
	for i, s := range d.States {
		if s.ID != i {
			panic("dfa: state order")
		}
		for _, t := range s.T {
			for c := t[0]; c <= t[1]; c++ {
				to := t[2]
				if to < 0 {
					to = 0
				}
				d.next[i][c] = int16(to + 1)
				d.act[i][c] = int16(t[3] + 1)
			}
		}
		if len(s.EOF) == 3 {
			if v, ok := s.EOF[2].(string); ok && v != "x" {
				k := 0
				fmt.Sscan(v, &k)
				d.eof[i] = int16(k + 1)
			}
		}
		for _, c := range s.Cond {
			for x := c[0]; x <= c[1]; x++ {
				d.cond[i][x] = true
			}
		}
		if s.Final && i < d.first {
			d.first = i
		}
	}
	return d
}

var msgDFA, uriDFA = loadDFA(msgJSON), loadDFA(uriJSON)

// cov records which (state, symbol) pairs a run went through.
type cov struct{ seen []uint64 }

func (d *dfa) newCov() *cov { return &cov{make([]uint64, len(d.States)*12)} }
func (c *cov) hit(s, sym int) {
	if c != nil {
		c.seen[s*12+sym>>6] |= 1 << (sym & 63)
	}
}

type refKind int

const (
	refOK refKind = iota
	refIncomplete
	refAt    // wrong at offset
	refOther // refused for another reason (number too large, URI, length)
	refNil
)

type refResult struct {
	kind refKind
	off  int
	msg  *sip.Msg
	cs   int  // state when the input ended
	open bool // either verdict is fine: see the known finding on bare addresses
}

var errBig = errors.New("number too large")

func dig(n, max int, c byte) (int, error) {
	n = n*10 + int(c-'0')
	if n > max {
		return 0, errBig
	}
	return n, nil
}

func hexv(c byte) byte {
	switch {
	case c <= '9':
		return c - '0'
	case c >= 'a':
		return c - 'a' + 10
	}
	return c - 'A' + 10
}

// refURI interprets the URI machine.
func refURI(data string, cv *cov) (*sip.URI, refResult) {
	d := uriDFA
	u := &sip.URI{}
	cs := d.Entries["uriWithUser"]
	if !strings.Contains(data, "@") {
		cs = d.Entries["uriSansUser"]
	}
	var buf []byte
	var b1, b2 string
	var hex byte
	do := func(tab int, c byte) error {
		for _, a := range d.Tables[tab] {
			var err error
			switch d.Actions[a] {
			case "start":
				buf = buf[:0]
			case "append":
				buf = append(buf, c)
			case "hexHi":
				hex = hexv(c) * 16
			case "hexLo":
				hex += hexv(c)
				buf = append(buf, hex)
			case "scheme":
				u.Scheme = string(buf)
			case "user":
				u.User = string(buf)
			case "pass":
				u.Pass = string(buf)
			case "host":
				u.Host = string(buf)
			case "port":
				var n int
				n, err = dig(int(u.Port), 65535, c)
				u.Port = uint16(n)
			case "b1":
				b1, buf = string(buf), buf[:0]
			case "b2":
				b2, buf = string(buf), buf[:0]
			case "lower":
				if 'A' <= c && c <= 'Z' {
					c += 32
				}
				buf = append(buf, c)
			case "param":
				u.Param = &sip.URIParam{Name: b1, Value: b2, Next: u.Param}
			case "header":
				u.Header = &sip.URIHeader{Name: b1, Value: b2, Next: u.Header}
			default:
				panic("ref: " + d.Actions[a])
			}
			if err != nil {
				return err
			}
		}
		return nil
	}
	p := 0
	for ; p < len(data); p++ {
		c := int(data[p])
		cv.hit(cs, c)
		to := d.next[cs][c]
		if to <= 1 {
			return nil, refResult{kind: refAt, off: p}
		}
		a := d.act[cs][c]
		cs = int(to) - 1
		if a > 0 {
			if do(int(a)-1, byte(c)) != nil {
				return nil, refResult{kind: refOther}
			}
		}
	}
	if a := d.eof[cs]; a > 0 {
		if do(int(a)-1, 0) != nil {
			return nil, refResult{kind: refOther}
		}
	}
	if cs < d.first {
		return nil, refResult{kind: refIncomplete, cs: cs}
	}
	return u, refResult{kind: refOK, cs: cs}
}

func lastp(a **sip.Addr) **sip.Addr {
	for *a != nil {
		a = &(*a).Next
	}
	return a
}

// refMsg interprets the message machine.
func refMsg(data []byte, cv *cov) refResult {
	d := msgDFA
	m := &sip.Msg{}
	viap := &m.Via
	cs := d.Start
	var buf []byte
	mark, clen := 0, -1
	ctype, name := "", ""
	var hex byte
	var value *string
	var via *sip.Via
	var addrp **sip.Addr
	var addr *sip.Addr
	p, pe := 0, len(data)
	brk, bare := false, false
	look := func() bool { return p+2 < pe && (data[p+2] == ' ' || data[p+2] == '\t') }
	do := func(tab int) error {
		for _, ai := range d.Tables[tab] {
			var c byte
			if p >= 0 && p < pe {
				c = data[p]
			}
			var err error
			var n int
			a := d.Actions[ai]
			if strings.HasPrefix(a, "goto_") {
				cs = d.Entries[a[5:]]
				return nil
			}
			switch a {
			case "hold":
				p--
			case "break":
				p++
				brk = true
				return nil
			case "mark":
				mark = p
			case "backtrack":
				p = mark - 1
			case "start":
				buf = buf[:0]
			case "append":
				buf = append(buf, c)
			case "hexHi":
				hex = hexv(c) * 16
			case "hexLo":
				hex += hexv(c)
				buf = append(buf, hex)
			case "Method":
				m.Method = string(data[mark:p])
			case "VersionMajor":
				n, err = dig(int(m.VersionMajor), 255, c)
				m.VersionMajor = uint8(n)
			case "VersionMinor":
				n, err = dig(int(m.VersionMinor), 255, c)
				m.VersionMinor = uint8(n)
			case "RequestURI":
				var r refResult
				m.Request, r = refURI(string(data[mark:p]), nil)
				if r.kind != refOK {
					err = errBig
				}
			case "StatusCode":
				m.Status = m.Status*10 + int(c-'0')
			case "ReasonPhrase":
				m.Phrase = string(buf)
			case "ViaNew":
				via = new(sip.Via)
			case "Via":
				*viap = via
				viap = &via.Next
				via = nil
			case "ViaProtocol":
				via.Protocol = string(data[mark:p])
			case "ViaVersion":
				via.Version = string(data[mark:p])
			case "ViaTransport":
				via.Transport = string(data[mark:p])
			case "ViaHost":
				via.Host = string(data[mark:p])
			case "ViaPort":
				n, err = dig(int(via.Port), 65535, c)
				via.Port = uint16(n)
			case "ViaParam":
				via.Param = &sip.Param{Name: name, Value: string(buf), Next: via.Param}
			case "gxh":
				p = mark - 1
				cs = d.Entries["xheader"]
				return nil
			case "name":
				name = string(data[mark:p])
			case "value":
				b := string(data[mark : p-1])
				if value != nil {
					*value = b
				} else {
					m.XHeader = &sip.XHeader{Name: name, Value: []byte(b), Next: m.XHeader}
				}
			case "AddrNew":
				addr = new(sip.Addr)
			case "AddrQuotedDisplay":
				addr.Display = string(buf)
			case "AddrUnquotedDisplay":
				addr.Display = strings.TrimRight(string(data[mark:p]), " \t\r\n")
			case "AddrUri":
				var r refResult
				addr.Uri, r = refURI(string(data[mark:p]), nil)
				if r.kind != refOK {
					err = errBig
					bare = p > mark && (data[p-1] == ',' || data[p-1] == ';') && (p == pe || data[p] != '>')
				}
			case "AddrParam":
				addr.Param = &sip.Param{Name: name, Value: string(buf), Next: addr.Param}
			case "Addr":
				*addrp = addr
				addrp = &addr.Next
				addr = nil
			case "CallID":
				m.CallID = string(data[mark:p])
			case "ContentLength":
				clen, err = dig(clen, 1<<32-1, c)
			case "ContentType":
				ctype = string(data[mark:p])
			case "CSeq":
				m.CSeq, err = dig(m.CSeq, 1<<32-1, c)
			case "CSeqMethod":
				m.CSeqMethod = string(data[mark:p])
			case "Expires":
				m.Expires, err = dig(m.Expires, 1<<32-1, c)
			case "MaxForwards":
				m.MaxForwards, err = dig(m.MaxForwards, 1<<32-1, c)
			case "MinExpires":
				m.MinExpires, err = dig(m.MinExpires, 1<<32-1, c)
			case "clen=0":
				clen = 0
			case "msg.Expires=0":
				m.Expires = 0
			case "msg.MaxForwards=0":
				m.MaxForwards = 0
			case "msg.MinExpires=0":
				m.MinExpires = 0
			case "value=nil":
				value = nil
			default:
				switch {
				case strings.HasPrefix(a, "addrp=lastAddr(&msg."):
					addrp = lastp(addrField(m, strings.TrimSuffix(a[20:], ")")))
				case strings.HasPrefix(a, "value=&msg."):
					value = strField(m, a[11:])
				default:
					panic("ref: action " + a)
				}
			}
			if err != nil {
				return err
			}
		}
		return nil
	}
	for ; p < pe; p++ {
		c := int(data[p])
		if d.cond[cs][c] {
			c += 256
			if look() {
				c += 256
			}
		}
		cv.hit(cs, c)
		to := d.next[cs][c]
		if to == 0 || (to == 1 && d.act[cs][c] == 0) {
			return refResult{kind: refAt, off: p, cs: 0}
		}
		a := d.act[cs][c]
		cs = int(to) - 1
		if a > 0 {
			if do(int(a)-1) != nil {
				return refResult{kind: refOther, open: bare}
			}
			if brk {
				break
			}
		}
	}
	// p == pe: nothing at the end of the input can still complete a message.
	if !brk && cs < d.first {
		return refResult{kind: refIncomplete, cs: cs}
	}
	if cs < d.first {
		return refResult{kind: refIncomplete, cs: cs}
	}
	body := data[p:]
	if clen < 0 && ctype != "" {
		clen = len(body)
	}
	if clen > 0 {
		if clen != len(body) {
			return refResult{kind: refOther}
		}
		if ctype == "application/sdp" {
			ms, err := sdp.Parse(string(body))
			if err != nil {
				return refResult{kind: refOther}
			}
			m.Payload = ms
		} else {
			m.Payload = &sip.MiscPayload{T: ctype, D: body}
		}
	}
	return refResult{kind: refOK, msg: m, cs: cs}
}

func addrField(m *sip.Msg, f string) **sip.Addr {
	switch f {
	case "Contact":
		return &m.Contact
	case "From":
		return &m.From
	case "PAssertedIdentity":
		return &m.PAssertedIdentity
	case "RecordRoute":
		return &m.RecordRoute
	case "RemotePartyID":
		return &m.RemotePartyID
	case "Route":
		return &m.Route
	case "To":
		return &m.To
	}
	panic("ref: address field " + f)
}

type strHdr struct {
	field, name, compact string
	get                  func(m *sip.Msg) *string
}

// strHdrs are the headers kept as plain text.
var strHdrs = []strHdr{
	{"UserAgent", "User-Agent", "", func(m *sip.Msg) *string { return &m.UserAgent }},
	{"Accept", "Accept", "", func(m *sip.Msg) *string { return &m.Accept }},
	{"AcceptContact", "Accept-Contact", "a", func(m *sip.Msg) *string { return &m.AcceptContact }},
	{"AcceptEncoding", "Accept-Encoding", "", func(m *sip.Msg) *string { return &m.AcceptEncoding }},
	{"AcceptLanguage", "Accept-Language", "", func(m *sip.Msg) *string { return &m.AcceptLanguage }},
	{"AlertInfo", "Alert-Info", "", func(m *sip.Msg) *string { return &m.AlertInfo }},
	{"Allow", "Allow", "u", func(m *sip.Msg) *string { return &m.Allow }},
	{"AllowEvents", "Allow-Events", "u", func(m *sip.Msg) *string { return &m.AllowEvents }},
	{"AuthenticationInfo", "Authentication-Info", "", func(m *sip.Msg) *string { return &m.AuthenticationInfo }},
	{"Authorization", "Authorization", "", func(m *sip.Msg) *string { return &m.Authorization }},
	{"CallInfo", "Call-Info", "", func(m *sip.Msg) *string { return &m.CallInfo }},
	{"ContentDisposition", "Content-Disposition", "", func(m *sip.Msg) *string { return &m.ContentDisposition }},
	{"ContentEncoding", "Content-Encoding", "e", func(m *sip.Msg) *string { return &m.ContentEncoding }},
	{"ContentLanguage", "Content-Language", "", func(m *sip.Msg) *string { return &m.ContentLanguage }},
	{"Date", "Date", "", func(m *sip.Msg) *string { return &m.Date }},
	{"ErrorInfo", "Error-Info", "", func(m *sip.Msg) *string { return &m.ErrorInfo }},
	{"Event", "Event", "o", func(m *sip.Msg) *string { return &m.Event }},
	{"InReplyTo", "In-Reply-To", "", func(m *sip.Msg) *string { return &m.InReplyTo }},
	{"MIMEVersion", "MIME-Version", "", func(m *sip.Msg) *string { return &m.MIMEVersion }},
	{"Organization", "Organization", "", func(m *sip.Msg) *string { return &m.Organization }},
	{"Priority", "Priority", "", func(m *sip.Msg) *string { return &m.Priority }},
	{"ProxyAuthenticate", "Proxy-Authenticate", "", func(m *sip.Msg) *string { return &m.ProxyAuthenticate }},
	{"ProxyAuthorization", "Proxy-Authorization", "", func(m *sip.Msg) *string { return &m.ProxyAuthorization }},
	{"ProxyRequire", "Proxy-Require", "", func(m *sip.Msg) *string { return &m.ProxyRequire }},
	{"ReferTo", "Refer-To", "r", func(m *sip.Msg) *string { return &m.ReferTo }},
	{"ReferredBy", "Referred-By", "b", func(m *sip.Msg) *string { return &m.ReferredBy }},
	{"ReplyTo", "Reply-To", "", func(m *sip.Msg) *string { return &m.ReplyTo }},
	{"Require", "Require", "", func(m *sip.Msg) *string { return &m.Require }},
	{"RetryAfter", "Retry-After", "", func(m *sip.Msg) *string { return &m.RetryAfter }},
	{"Server", "Server", "", func(m *sip.Msg) *string { return &m.Server }},
	{"Subject", "Subject", "s", func(m *sip.Msg) *string { return &m.Subject }},
	{"Supported", "Supported", "k", func(m *sip.Msg) *string { return &m.Supported }},
	{"Timestamp", "Timestamp", "", func(m *sip.Msg) *string { return &m.Timestamp }},
	{"Unsupported", "Unsupported", "", func(m *sip.Msg) *string { return &m.Unsupported }},
	{"Warning", "Warning", "", func(m *sip.Msg) *string { return &m.Warning }},
	{"WWWAuthenticate", "WWW-Authenticate", "", func(m *sip.Msg) *string { return &m.WWWAuthenticate }},
}

var strIdx = func() map[string]int {
	m := map[string]int{}
	for i, h := range strHdrs {
		m[h.field] = i
	}
	return m
}()

func strField(m *sip.Msg, f string) *string {
	i, ok := strIdx[f]
	if !ok {
		panic("ref: text field " + f)
	}
	return strHdrs[i].get(m)
}

var addrHdrs = []struct{ field, name, compact string }{
	{"From", "From", "f"}, {"To", "To", "t"}, {"Contact", "Contact", "m"}, {"Route", "Route", ""},
	{"RecordRoute", "Record-Route", ""}, {"PAssertedIdentity", "P-Asserted-Identity", ""}, {"RemotePartyID", "Remote-Party-ID", ""},
}

// dump writes everything a message carries, one item per line. Fields named in
// skip are left out.
func dump(m *sip.Msg, skip ...string) string {
	if m == nil {
		return "nil"
	}
	var b strings.Builder
	no := func(f string) bool {
		for _, s := range skip {
			if s == f {
				return true
			}
		}
		return false
	}
	line := func(k string, v any) {
		if !no(k) {
			fmt.Fprintf(&b, "%s=%#v\n", k, v)
		}
	}
	line("Version", [2]uint8{m.VersionMajor, m.VersionMinor})
	line("Method", m.Method)
	if !no("Request") {
		b.WriteString("Request=" + dumpURI(m.Request) + "\n")
	}
	line("Status", m.Status)
	line("Phrase", m.Phrase)
	line("CallID", m.CallID)
	line("CSeq", m.CSeq)
	line("CSeqMethod", m.CSeqMethod)
	line("MaxForwards", m.MaxForwards)
	line("Expires", m.Expires)
	line("MinExpires", m.MinExpires)
	for v := m.Via; v != nil && !no("Via"); v = v.Next {
		b.WriteString("Via=" + dumpVia(v) + "\n")
	}
	for _, h := range addrHdrs {
		if no(h.field) {
			continue
		}
		for a := *addrField(m, h.field); a != nil; a = a.Next {
			b.WriteString(h.field + "=" + dumpAddr(a) + "\n")
		}
	}
	for _, h := range strHdrs {
		if s := *h.get(m); s != "" {
			line(h.field, s)
		}
	}
	for x := m.XHeader; x != nil && !no("XHeader"); x = x.Next {
		fmt.Fprintf(&b, "XHeader=%q:%q\n", x.Name, x.Value)
	}
	if m.SourceAddr != nil {
		line("SourceAddr", m.SourceAddr.String())
	}
	if !no("Payload") {
		b.WriteString("Payload=" + dumpPayload(m.Payload) + "\n")
	}
	return b.String()
}

func dumpPayload(p sip.Payload) string {
	switch q := p.(type) {
	case nil:
		return "nil"
	case *sip.MiscPayload:
		if q == nil {
			return "nil misc"
		}
		return fmt.Sprintf("misc %q %q", q.T, q.D)
	case *sdp.SDP:
		if q == nil {
			return "nil sdp"
		}
		return "sdp " + dumpSDP(q)
	}
	return fmt.Sprintf("%T %q %q", p, p.ContentType(), p.Data())
}

func dumpSDP(s *sdp.SDP) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %q %v %v %d %q %q %q %q %q", s.Addr, s.Session, s.Time, s.SendOnly, s.RecvOnly, s.Ptime, s.Origin.User, s.Origin.ID, s.Origin.Version, s.Origin.Addr, s.Attrs)
	fmt.Fprintf(&b, " %q", s.Other)
	for _, md := range []*sdp.Media{s.Audio, s.Video} {
		if md == nil {
			b.WriteString(" nil")
			continue
		}
		fmt.Fprintf(&b, " {%q %d", md.Proto, md.Port)
		for _, c := range md.Codecs {
			fmt.Fprintf(&b, " (%d %q %d %q %q)", c.PT, c.Name, c.Rate, c.Param, c.Fmtp)
		}
		b.WriteString("}")
	}
	return b.String()
}

func dumpURI(u *sip.URI) string {
	if u == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%q user=%q pass=%q host=%q port=%d", u.Scheme, u.User, u.Pass, u.Host, u.Port)
	for p := u.Param; p != nil; p = p.Next {
		fmt.Fprintf(&b, " ;%q=%q", p.Name, p.Value)
	}
	for p := u.Header; p != nil; p = p.Next {
		fmt.Fprintf(&b, " ?%q=%q", p.Name, p.Value)
	}
	return b.String()
}

func dumpParam(p *sip.Param) string {
	var b strings.Builder
	for ; p != nil; p = p.Next {
		fmt.Fprintf(&b, " ;%q=%q", p.Name, p.Value)
	}
	return b.String()
}

func dumpAddr(a *sip.Addr) string {
	if a == nil {
		return "nil"
	}
	return fmt.Sprintf("%q <%s>%s", a.Display, dumpURI(a.Uri), dumpParam(a.Param))
}

func dumpAddrs(a *sip.Addr) string {
	s := "["
	for ; a != nil; a = a.Next {
		s += dumpAddr(a) + ", "
	}
	return s + "]"
}

func dumpVia(v *sip.Via) string {
	if v == nil {
		return "nil"
	}
	return fmt.Sprintf("%q/%q/%q %q:%d%s", v.Protocol, v.Version, v.Transport, v.Host, v.Port, dumpParam(v.Param))
}

func dumpVias(v *sip.Via) string {
	s := "["
	for ; v != nil; v = v.Next {
		s += dumpVia(v) + ", "
	}
	return s + "]"
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
