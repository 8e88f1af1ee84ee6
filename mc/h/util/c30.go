// Package utilh checks C30: identifiers and error predicates.
package utilh

import (
	"bytes"
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"strconv"
	"syscall"
	"time"

	"github.com/jart/gosip/util"

	"verif/mc/mc"
)

// tape is a source of random bytes the explorer writes; it counts what is drawn
// and may hand it out in pieces.
type tape struct {
	b     []byte
	drawn int
	piece int
}

func (t *tape) Read(p []byte) (int, error) {
	if t.piece > 0 && len(p) > t.piece {
		p = p[:t.piece]
	}
	for i := range p {
		p[i] = 0
		if t.drawn < len(t.b) {
			p[i] = t.b[t.drawn]
		}
		t.drawn++
	}
	return len(p), nil
}

type gen struct {
	name  string
	f     func() string
	shape *regexp.Regexp
	bytes int // random bytes that must count
}

var gens = []gen{
	{"tag", util.GenerateTag, regexp.MustCompile(`^[0-9a-f]{12}$`), 6},
	{"branch", util.GenerateBranch, regexp.MustCompile(`^z9hG4bK-[0-9a-f]{12}$`), 6},
	{"Call-ID", util.GenerateCallID, regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`), 15},
	{"origin ID", util.GenerateOriginID, regexp.MustCompile(`^(0|[1-9][0-9]{0,9})$`), 4},
	{"CSeq", func() string { return strconv.Itoa(util.GenerateCSeq()) }, regexp.MustCompile(`^(0|[1-9][0-9]{0,4})$`), 2},
}

func (g gen) run(x *mc.X, b []byte, piece int) (string, int) {
	t := &tape{b: b, piece: piece}
	rand.Reader = t
	s := g.f()
	x.Step(1)
	x.Checked(1)
	if !g.shape.MatchString(s) {
		x.Violate(g.name+": shape", "% x gives %q", b, s)
	}
	switch n, _ := strconv.ParseInt(s, 10, 64); g.name {
	case "origin ID":
		if n > 1<<32-1 {
			x.Violate(g.name+": range", "%q", s)
		}
	case "CSeq":
		if n > 49999 {
			x.Violate(g.name+": range", "%q", s)
		}
	}
	return s, t.drawn
}

func init() {
	// Which byte values a draw is retried for (rejection sampling) is the
	// generator's business, so distinctness is judged among single draws.
	type plane struct{ g, a, b int }
	var planes []plane
	for k, g := range gens {
		for a := 0; a < g.bytes; a++ {
			for b := a + 1; b < g.bytes; b++ {
				planes = append(planes, plane{k, a, b})
			}
		}
	}
	mc.Add(&mc.Suite{Prop: "C30", Name: "planes", Bound: "for each identifier, every value of every two of its random bytes on 2 backgrounds: well-formed, and no two draws give the same",
		N: func() int64 { return int64(len(planes)) * 2 },
		Case: func(x *mc.X, i int64) {
			p := planes[i/2]
			g := gens[p.g]
			seen := map[string]int{}
			for v := 0; v < 65536; v++ {
				t := bytes.Repeat([]byte{[]byte{0, 0x3c}[i%2]}, 40)
				t[p.a], t[p.b] = byte(v), byte(v>>8)
				s, n := g.run(x, t, 0)
				if n < g.bytes {
					x.Violate(g.name+": too little randomness", "%d bytes drawn", n)
				}
				if n > g.bytes { // another draw was made
					continue
				}
				if o, dup := seen[s]; dup {
					x.Violate(g.name+": same for different draws", "bytes %d and %d: %04x and %04x both give %q", p.a, p.b, o, v, s)
				}
				seen[s] = v
				x.CoverH("distinct", mc.Hash(g.name+s))
			}
			if g.name == "CSeq" && len(seen) < 50000 || g.name == "origin ID" && len(seen) < 65000 || len(seen) < 50000 {
				x.Violate(g.name+": range not covered", "%d values of 65536 draws", len(seen))
			}
		}})
	mc.Add(&mc.Suite{Prop: "C30", Name: "bits", Bound: "each bit and each value of each byte of 64 bytes drawn: well-formed; the same draw, even in pieces of 1..7 bytes, gives the same; bits drawn once all count",
		N: func() int64 { return int64(len(gens)) * 64 },
		Case: func(x *mc.X, i int64) {
			g := gens[i/64]
			at := int(i % 64)
			for _, bg := range []byte{0, 0xff, 0xa5, 0x11} {
				t := bytes.Repeat([]byte{bg}, 64)
				ref, n := g.run(x, t, 0)
				for v := 0; v < 256; v++ {
					t[at] = byte(v)
					s, m := g.run(x, t, 0)
					if r, _ := g.run(x, t, 1+v%7); r != s {
						x.Violate(g.name+": depends on how bytes arrive", "%q %q", r, s)
					}
					if at < g.bytes && n == g.bytes && m == n && byte(v) != bg && s == ref {
						x.Violate(g.name+": byte does not count", "byte %d: %#x and %#x give %q", at, bg, v, s)
					}
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C30", Name: "successive", Bound: "2000 successive identifiers of each kind from one stream differ (tags, branches and Call-IDs)",
		N: func() int64 { return 3 },
		Case: func(x *mc.X, i int64) {
			t := &tape{}
			v := uint64(88172645463325252)
			for k := 0; k < 40000; k++ {
				v ^= v << 13
				v ^= v >> 7
				v ^= v << 17
				t.b = append(t.b, byte(v>>32))
			}
			rand.Reader = t
			seen := map[string]bool{}
			for k := 0; k < 2000; k++ {
				s := gens[i].f()
				if seen[s] {
					x.Violate(gens[i].name+": repeated", "%q", s)
				}
				seen[s] = true
			}
			x.Step(2000)
		}})

	// Predicates.
	op := func(o string, e error) error {
		return &net.OpError{Op: o, Net: "udp", Source: &net.UDPAddr{}, Addr: &net.UDPAddr{Port: 5}, Err: e}
	}
	judge := func(x *mc.X, e error, refused, closed bool) {
		var r, c bool
		x.NoCrash("crash", func() { r, c = util.IsRefused(e), util.IsUseOfClosed(e) })
		x.Step(2)
		x.Checked(2)
		if r != refused {
			x.Violate("IsRefused", "%#v (%v): %v", e, e, r)
		}
		if c != closed {
			x.Violate("IsUseOfClosed", "%#v (%v): %v", e, e, c)
		}
		x.CoverH("distinct", mc.Hash(fmt.Sprintf("%#v", e)))
	}
	mc.Add(&mc.Suite{Prop: "C30", Name: "errors", Bound: "every error number 1..200 as the system reports it for each operation; end of file, timeouts, closed sockets, look-up errors, errors that only read alike",
		N: func() int64 { return 201 },
		Case: func(x *mc.X, i int64) {
			for _, o := range []string{"read", "write", "dial", "listen", "close", "set", ""} {
				for _, sc := range []string{"read", "write", "recvfrom", "sendto", "connect", "bind", "recvmsg", "sendmsg"} {
					if i > 0 {
						judge(x, op(o, os.NewSyscallError(sc, syscall.Errno(i))), syscall.Errno(i) == syscall.ECONNREFUSED, false)
					}
				}
				if i > 0 {
					judge(x, op(o, syscall.Errno(i)), syscall.Errno(i) == syscall.ECONNREFUSED, false)
					continue
				}
				judge(x, op(o, net.ErrClosed), false, true)
				for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, context.Canceled, errors.New("refused"), errors.New("closed"), &net.AddrError{Err: "x", Addr: "y"}, net.UnknownNetworkError("x"), &net.DNSError{Err: "no such host", Name: "refused"}, net.ErrWriteToConnected, os.ErrClosed} {
					judge(x, op(o, e), false, false)
					judge(x, e, false, false)
				}
				judge(x, net.ErrClosed, false, true)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C30", Name: "real-sockets", Bound: "refusals and closed sockets as this system's kernel reports them on the loopback network, when reading and when writing",
		N: func() int64 { return 1 },
		Case: func(x *mc.X, i int64) {
			l, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
			if err != nil {
				x.Skip() // no network here
			}
			to := l.LocalAddr().(*net.UDPAddr)
			l.Close()
			if _, err := l.WriteTo([]byte("x"), to); err != nil {
				judge(x, err, false, true)
			}
			if _, _, err := l.ReadFrom(make([]byte, 9)); err != nil {
				judge(x, err, false, true)
			}
			if err := l.Close(); err != nil {
				judge(x, err, false, true)
			}
			c, err := net.DialUDP("udp4", nil, to)
			if err != nil {
				x.Skip()
			}
			defer c.Close()
			c.SetReadDeadline(time.Now().Add(2 * time.Second))
			for k := 0; k < 3; k++ {
				if _, err := c.Write([]byte("x")); errors.Is(err, syscall.ECONNREFUSED) {
					judge(x, err, true, false)
				}
				if _, err := c.Read(make([]byte, 9)); err != nil {
					judge(x, err, errors.Is(err, syscall.ECONNREFUSED), false)
				}
			}
			c.SetReadDeadline(time.Now().Add(-time.Second))
			if _, err := c.Read(make([]byte, 9)); err != nil {
				judge(x, err, false, false)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C30", Name: "addresses", Bound: "every port number as text; every string of up to 4 of 6 characters as an address",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			x.Eq(util.Portstr(uint16(i)), strconv.Itoa(int(i)), "port")
			x.Step(1)
			if i < 1555 {
				s, colon := "", false
				for n := i; n > 0; n = (n - 1) / 6 {
					c := "1a:.%["[(n-1)%6]
					colon = colon || c == ':'
					s += string(c)
				}
				if util.IsIPv6(s) != colon {
					x.Violate("IsIPv6", "%q", s)
				}
			}
		}})
}
