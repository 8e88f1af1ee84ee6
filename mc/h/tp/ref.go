// Package tph checks the stateless parts of the dialog package: C18 to C21 and
// C29.
package tph

import (
	"encoding/binary"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"strconv"
	"strings"

	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

func init() { log.SetOutput(io.Discard) }

// entropy is crypto/rand made repeatable; every read differs from all others.
type entropy struct {
	n     uint64
	zeros int // so many short reads yield zero bytes first
}

func (e *entropy) Read(p []byte) (int, error) {
	e.n++
	if e.zeros > 0 && len(p) <= 2 {
		e.zeros--
		clear(p)
		return len(p), nil
	}
	var b [8]byte
	for i := range p {
		if i%8 == 0 {
			binary.LittleEndian.PutUint64(b[:], (e.n+uint64(i)<<20)*0x9e3779b97f4a7c15)
		}
		p[i] = b[i%8]
	}
	return len(p), nil
}

func setFlag(name, value string) {
	if f := flag.Lookup(name); f != nil && f.Value.String() != value {
		f.Value.Set(value)
	}
}

func uri(host string, port uint16, lr bool) *sip.URI {
	u := &sip.URI{Scheme: "sip", Host: host, Port: port}
	if lr {
		u.Param = &sip.URIParam{Name: "lr"}
	}
	return u
}

func or5060(p uint16) uint16 {
	if p == 0 {
		return 5060
	}
	return p
}

// addrs makes a list out of one-element pieces.
func addrs(as ...*sip.Addr) *sip.Addr {
	for i := len(as) - 1; i > 0; i-- {
		as[i-1].Next = as[i]
	}
	if len(as) == 0 {
		return nil
	}
	return as[0]
}

func vias(vs ...*sip.Via) *sip.Via {
	for i := len(vs) - 1; i > 0; i-- {
		vs[i-1].Next = vs[i]
	}
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}

func params(nv ...string) (p *sip.Param) {
	for i := len(nv) - 2; i >= 0; i -= 2 {
		p = &sip.Param{Name: nv[i], Value: nv[i+1], Next: p}
	}
	return
}

func get(p *sip.Param, name string) (string, bool) {
	for ; p != nil; p = p.Next {
		if strings.EqualFold(p.Name, name) {
			return p.Value, true
		}
	}
	return "", false
}

func hasLR(u *sip.URI) bool {
	for p := u.Param; p != nil; p = p.Next {
		if p.Name == "lr" {
			return true
		}
	}
	return false
}

func isOwn(own *sip.Addr, a *sip.Addr) bool {
	return own != nil && a != nil && own.Uri.Host == a.Uri.Host && or5060(own.Uri.Port) == or5060(a.Uri.Port)
}

func isOwnVia(own, v *sip.Via) bool {
	return own != nil && v != nil && own.Host == v.Host && or5060(own.Port) == or5060(v.Port)
}

// route applies the routing rules to m, which it may change.
func route(own *sip.Via, contact *sip.Addr, m *sip.Msg) (host string, port uint16, err error) {
	if m.Status > 0 {
		if isOwnVia(own, m.Via) {
			m.Via = m.Via.Next
		}
		if m.Via == nil {
			return "", 0, errors.New("no Via")
		}
		host, port = m.Via.Host, m.Via.Port
		if r, _ := get(m.Via.Param, "received"); r != "" {
			host = r
		}
		if r, _ := get(m.Via.Param, "rport"); r != "" {
			n, err := strconv.Atoi(r)
			if err != nil || n < 0 || n > 65535 || strings.Trim(r, "0123456789") != "" {
				return "", 0, errors.New("bad rport")
			}
			port = uint16(n)
		}
		return
	}
	if isOwn(contact, m.Route) {
		m.Route = m.Route.Next
	}
	r := m.Route
	switch {
	case r == nil:
		return m.Request.Host, m.Request.Port, nil
	case m.Method == "REGISTER":
		return "", 0, errors.New("REGISTER is not routed")
	case hasLR(r.Uri):
		return r.Uri.Host, r.Uri.Port, nil
	}
	var rest []*sip.Addr
	for a := r.Next; a != nil; a = a.Next {
		b := *a
		rest = append(rest, &b)
	}
	rest = append(rest, &sip.Addr{Uri: m.Request})
	m.Request = r.Uri
	m.Route = addrs(rest...)
	return m.Request.Host, m.Request.Port, nil
}

// text is a message as it leaves.
func text(m *sip.Msg) string { return m.String() }

// unset removes a parameter of a Via.
func unset(v *sip.Via, name string) {
	for p := &v.Param; *p != nil; {
		if (*p).Name == name {
			*p = (*p).Next
		} else {
			p = &(*p).Next
		}
	}
}

func differ(what, got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	var s []string
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "", ""
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			s = append(s, fmt.Sprintf("  %q should be %q", a, b))
		}
	}
	return what + ":\n" + strings.Join(s, "\n")
}

var _ = mc.Dump
