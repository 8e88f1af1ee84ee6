package parh

import (
	"crypto/rand"
	"encoding/binary"
	"flag"
	"fmt"
	"net"
	"strings"
	"testing/synctest"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
	"verif/mc/shim/vrand"
	"verif/mc/shim/vsel"
)

type entropy struct{ n uint64 }

func (e *entropy) Read(p []byte) (int, error) {
	e.n++
	var b [8]byte
	for i := range p {
		if i%8 == 0 {
			binary.LittleEndian.PutUint64(b[:], (e.n+uint64(i)<<20)*0x9e3779b97f4a7c15)
		}
		p[i] = b[i%8]
	}
	return len(p), nil
}

func setFlag(name, value string) {
	if f := flag.Lookup(name); f != nil && f.Value.String() != value {
		f.Value.Set(value)
	}
}

// world is one in which the actors live.
func world(es ...*env) *vnet.World {
	setFlag("resendInterval", "400")
	setFlag("maxResends", "2")
	setFlag("looseSignalling", "false")
	setFlag("timestampTagging", "false")
	setFlag("trace", "false")
	for _, e := range es {
		e.open()
	}
	vsel.Rank = nil
	w := vnet.NewWorld()
	n := uint64(1)
	vrand.Use(func() uint64 { n += 0x9e3779b97f4a7c15; return n })
	rand.Reader = &entropy{}
	w.LocalIP = func(dest *net.UDPAddr) net.IP {
		return net.ParseIP(fmt.Sprintf("10.%d.9.9", max(1, owner(dest.String(), nil)))).To4()
	}
	w.SRV = func(_, _, name string) (r []*net.SRV, err error) {
		k := owner(name, nil)
		for i := 1; i <= 3; i++ {
			r = append(r, &net.SRV{Target: fmt.Sprintf("10.%d.2.%d", k, i), Port: uint16(5060 + i)})
		}
		return
	}
	w.Host = func(name string) ([]net.IP, error) {
		return []net.IP{net.ParseIP(fmt.Sprintf("10.%d.2.9", owner(name, nil)))}, nil
	}
	w.Deliver = deliver(es)
	w.Yield = func(kind, arg string, c *vnet.UDPConn) {
		k := owner(arg, c)
		for _, e := range es {
			if e.k != k && !(k == common && e == turn) {
				continue
			}
			e.mu.Lock()
			hit := e.n == e.stop
			e.n++
			e.wait = e.wait || hit
			e.mu.Unlock()
			if hit {
				<-e.gate
			}
		}
	}
	vnet.Cur = w
	return w
}

// launch lets the actor run until it waits or is done.
func (e *env) launch(do func(*env)) {
	turn = e
	go func() {
		do(e)
		for {
			select {
			case m := <-e.in:
				e.say("sent", "at the end to %s: %s", m.pkt.Addr, printable(m.pkt.Data))
				continue
			default:
			}
			break
		}
		e.mu.Lock()
		e.done = true
		e.mu.Unlock()
	}()
	synctest.Wait()
}

// resume lets the actor go on until operation stop.
func (e *env) resume(stop int) {
	turn = e
	e.mu.Lock()
	w := e.wait
	e.wait = false
	e.stop = stop
	e.mu.Unlock()
	if w {
		e.gate <- true
	}
	synctest.Wait()
}

func (e *env) waiting() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.wait
}

func (e *env) finished() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.done
}

type alone struct {
	trace string
	n     int
	ok    bool
}

var solos = map[string]*alone{}

// solo runs one actor alone.
func solo(x *mc.X, a actor, k int, same bool, prep func()) *alone {
	key := fmt.Sprint(a.name, k, same)
	if s := solos[key]; s != nil {
		return s
	}
	e := newEnv(k)
	e.same = same
	s := &alone{}
	crash := x.Safe(func() {
		x.Bubble(func() {
			world(e)
			if prep != nil {
				prep()
			}
			e.launch(a.do)
			s.ok = e.finished()
			unstick(e)
			unshare()
		})
	})
	s.ok = s.ok && crash == ""
	s.trace, s.n = e.trace(), e.n
	solos[key] = s
	return s
}

// unstick ends what is left of an execution in which something got stuck.
func unstick(es ...*env) {
	for _, e := range es {
		if e.finished() {
			continue
		}
		e.resume(-1)
		for i := 0; i < 3; i++ {
			for _, c := range vnet.Cur.Open() {
				c.Inject(vnet.Packet{Err: c.Broken("read")})
			}
			synctest.Wait()
		}
	}
}

// pair runs the two with the given number of changes of turn.
func pair(x *mc.X, a, b actor, turns int, same bool, prep func()) {
	sa, sb := solo(x, a, 1, same, prep), solo(x, b, 2, same, prep)
	if !sa.ok || !sb.ok {
		x.Skip() // it doesn't work alone either
	}
	// until[t] is the operation before which whoever has turn t stops.
	n := [2]int{sa.n, sb.n}
	at := [2]int{-1, -1}
	var until []int
	for t := 0; t < turns; t++ {
		w := t % 2
		k := n[w] - at[w] // what is left, or to the end
		if t == 0 {
			k-- // the whole of the first and then the second is not of interest
		}
		at[w] += 1 + x.Choose(k, "until")
		if until = append(until, at[w]); at[w] == n[w] {
			break
		}
	}
	ea, eb := newEnv(1), newEnv(2)
	ea.same, eb.same = same, same
	es, as := [2]*env{ea, eb}, [2]actor{a, b}
	leaked := x.Bubble(func() {
		world(ea, eb)
		if prep != nil {
			prep()
		}
		for t := 0; t < turns || !ea.finished() && ea.waiting() || !eb.finished() && eb.waiting(); t++ {
			e, stop := es[t%2], -1
			if t < len(until) {
				stop = until[t]
			}
			if t < 2 {
				e.stop = stop
				e.launch(as[t].do)
			} else {
				e.resume(stop)
			}
			x.Step(1)
		}
		if !ea.finished() || !eb.finished() {
			unstick(ea, eb)
			ea.done = false
		}
		unshare()
	})
	what := fmt.Sprintf("%s and %s, changing turns at operations %v", a.name, b.name, until)
	for n, p := range []struct {
		e *env
		s *alone
		a actor
	}{{ea, sa, a}, {eb, sb, b}} {
		got := p.e.trace()
		if got != p.s.trace {
			x.Violate(fmt.Sprintf("%s: disturbed", p.a.name), "number %d (%s) differs from when it is alone: %s\n%s", n+1, p.a.name, what, diff(got, p.s.trace))
		}
	}
	if !ea.done || leaked {
		x.Violate(a.name+": stuck", "stuck: %s", what)
	}
	x.Cover("state", fmt.Sprint(a.name, b.name, until))
	x.Checked(2)
}

func diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("line %d\ngot  %s\nalone %s", i+1, a, b)
		}
	}
	return ""
}

// sharers use one transport together.
var sharedTp *dialog.Transport

func prepShared() {
	tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "both", Host: "10.3.0.1", Port: 5060}})
	if err != nil {
		panic(err)
	}
	sharedTp = tp
	go func() {
		c, e := tp.C, tp.E
		for c != nil || e != nil {
			select {
			case _, ok := <-c:
				if !ok {
					c = nil
				}
			case <-e:
				e = nil
			}
		}
	}()
}

func unshare() {
	if sharedTp != nil {
		sharedTp.Sock.Close()
		synctest.Wait()
		sharedTp = nil
	}
}

func sharing(n int) actor {
	return actor{fmt.Sprintf("sender over a shared transport %d", n), func(e *env) {
		for i := n; i < 5; i++ {
			r := e.request([]string{"OPTIONS", "REGISTER", "MESSAGE", "INVITE", "ACK"}[i], i)
			switch i {
			case 2:
				r.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: e.ip(0, 66)}}
			case 3:
				r.Request.Host = e.host()
			case 4:
				r.From, r.Contact = e.request("", 1).To, e.request("", 2).To
			}
			e.say("end", "%v", sharedTp.Send(r))
			e.next()
		}
	}}
}

func init() {
	mc.Add(&mc.Suite{Prop: "C31", Name: "pairs", Split: 2, Bound: fmt.Sprintf("every ordered pair of %d activities (%s) and every schedule of the two with %d changes of turn at network operations", len(actors), actorNames(), mc.Pick(3, 4)),
		Run: func(x *mc.X) {
			a, b := actors[x.Choose(len(actors), "first")], actors[x.Choose(len(actors), "second")]
			pair(x, a, b, mc.Pick(3, 4), false, nil)
		}})
	mc.Add(&mc.Suite{Prop: "C31", Name: "same", Split: 2, Bound: fmt.Sprintf("the same with one other side: every ordered pair of activities with the same addresses and host names, every schedule with %d changes of turn", mc.Pick(2, 3)),
		Run: func(x *mc.X) {
			a, b := actors[x.Choose(len(actors), "first")], actors[x.Choose(len(actors), "second")]
			pair(x, a, b, mc.Pick(2, 3), true, nil)
		}})
	mc.Add(&mc.Suite{Prop: "C31", Name: "shared", Split: 2, Bound: fmt.Sprintf("two senders over one transport (5 kinds of messages, each starting anywhere), every schedule with %d changes of turn at network operations", mc.Pick(5, 7)),
		Run: func(x *mc.X) {
			a, b := sharing(x.Choose(5, "first")), sharing(x.Choose(5, "second"))
			pair(x, a, b, mc.Pick(5, 7), false, prepShared)
		}})
}

func actorNames() string {
	var s []string
	for _, a := range actors {
		s = append(s, a.name)
	}
	return strings.Join(s, ", ")
}
