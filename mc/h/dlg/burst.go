package dlgh

import (
	"fmt"
	"maps"
	"strings"
	"testing/synctest"
	"time"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
	"verif/mc/shim/vsel"
)

// pending is what waits for the call while the application does not read.
type pending struct {
	kind string // sock, inbound, hangup
	in   *in    // nil: a read error
	err  string
}

// orders lets every waiting thing be taken in every order, including timers
// that went off meanwhile, and returns the outcomes; the order given by rank
// comes first.
func orders(m *mdl, todo []pending, out *[]*mdl) {
	if m.over || m.unsettled {
		*out = append(*out, m)
		return
	}
	any := false
	seen := map[string]bool{}
	for i, p := range todo {
		if seen[p.kind] {
			continue // one source keeps its order
		}
		seen[p.kind] = true
		any = true
		n := m.clone()
		switch {
		case p.kind == "hangup":
			n.hangup()
		case p.in == nil:
			n.readError(p.err, p.kind == "inbound")
		default:
			n.message(p.in)
		}
		rest := append(append([]pending{}, todo[:i]...), todo[i+1:]...)
		if p.in == nil && p.kind == "sock" || n.addr != m.addr {
			// The socket is gone, and what waited at it.
			rest = nil
			for _, q := range append(append([]pending{}, todo[:i]...), todo[i+1:]...) {
				if q.kind != "sock" {
					rest = append(rest, q)
				}
			}
		}
		orders(n, stale(m, n, rest), out)
	}
	for _, r := range []bool{true, false} {
		d := m.respDL
		if r {
			d = m.reqDL
		}
		if !d.IsZero() && !d.After(m.now) {
			any = true
			n := m.clone()
			n.fire(r)
			rest := todo
			if n.addr != m.addr {
				rest = nil
				for _, q := range todo {
					if q.kind != "sock" {
						rest = append(rest, q)
					}
				}
			}
			orders(n, stale(m, n, rest), out)
		}
	}
	if !any {
		*out = append(*out, m)
	}
}

// stale marks the waiting responses that answer a transaction that is over.
func stale(m, n *mdl, todo []pending) (r []pending) {
	if n.gen == m.gen {
		return todo
	}
	for _, p := range todo {
		if p.in != nil && p.in.match {
			i := *p.in
			i.match = false
			p.in = &i
		}
		r = append(r, p)
	}
	return
}

var burstPrefixes = [][]event{{}, {e100}, {e180}, {e200}, {e200, eReinv}, {e503}}
var burstHold = []event{e183, e200, e200rr, reqs("re-INVITE", reqOpt{method: "INVITE", dcseq: 1, contact: c2, sdp: med2})}
var burstMsgs = []event{e100, e183, e200, e200rr, e486, e503, e302, eReinv, eAck, eOptions, eBye, eOther1, eForeign}
var burstThen = []event{eNext, eHangup, e200, eBye}

// capture runs an arriving event only to learn its message.
func (d *drv) capture(e event) *in {
	d.grab = true
	d.grabbed = nil
	e.do(d)
	d.grab = false
	return d.grabbed
}

func perm(x *mc.X, ss []string) (r []string) {
	ss = append([]string{}, ss...)
	for len(ss) > 0 {
		i := 0
		if len(ss) > 1 {
			i = x.Choose(len(ss), "first")
		}
		r = append(r, ss[i])
		ss = append(ss[:i], ss[i+1:]...)
	}
	return
}

func burst(x *mc.X, prop string) {
	c := world()
	c.max = 1
	p := burstPrefixes[x.Choose(len(burstPrefixes), "beginning")]
	hold := burstHold[x.Choose(len(burstHold), "held up at")]
	nm := x.Choose(len(burstMsgs)+3, "message")
	ni := x.Choose(4, "inbound")
	hang := x.Choose(3, "hang-ups")
	late := x.Bool("late")
	c.loose = ni > 0
	run(x, prop, c, func(d *drv) {
		for _, e := range p {
			if !d.stop() {
				d.play(e)
			}
		}
		if d.stop() {
			return
		}
		d.tick()
		// The application reads one more report, then the call is stuck at the next.
		x.Logf("the application stops reading; %s", hold.name)
		d.freeze()
		before := d.m.clone()
		hold.do(d)
		if len(d.m.rep) < 2 && !(len(d.m.rep) == 1 && before.over) {
			// Not stuck: nothing would be waiting.
			d.release()
			d.settle("time: the application reads again")
			return
		}
		if d.m.over || d.m.unsettled {
			d.release()
			d.settle("time: the application reads again")
			return
		}
		// What the call had sent when it got stuck decides what can be answered.
		var todo []pending
		kinds := []string{}
		switch {
		case nm == 0:
		case nm <= len(burstMsgs):
			i := d.capture(burstMsgs[nm-1])
			todo = append(todo, pending{kind: "sock", in: i})
			d.inject(i.text)
			x.Logf("waiting: %s", i.name)
			kinds = append(kinds, "*sip.Msg")
		default:
			k := []string{"refused", "broken"}[nm-len(burstMsgs)-1]
			todo = append(todo, pending{kind: "sock", err: k})
			e := d.conn.Refused("read")
			if k == "broken" {
				e = d.conn.Broken("read")
			}
			d.conn.Inject(vnet.Packet{Err: e})
			x.Logf("waiting: socket %s", k)
			kinds = append(kinds, "error")
		}
		if ni > 0 {
			i := d.capture([]event{e200, eBye, eOptions}[ni-1])
			todo = append(todo, pending{kind: "inbound", in: i})
			d.inbound = true
			d.inject(i.text)
			d.inbound = false
			x.Logf("waiting at the inbound socket: %s", i.name)
			if len(kinds) == 0 || kinds[0] != "*sip.Msg" {
				kinds = append(kinds, "*sip.Msg")
			}
		}
		for i := 0; i < hang; i++ {
			d.dl.Hangup <- true
			todo = append(todo, pending{kind: "hangup"})
			x.Logf("waiting: hang-up")
		}
		if hang > 0 {
			kinds = append(kinds, "bool")
		}
		if late {
			dl := d.m.deadline()
			if dl.IsZero() {
				x.Skip()
			}
			// Both timers may be over, or just one.
			t := dl.Sub(d.m.now)
			if a, b := d.m.reqDL, d.m.respDL; !a.IsZero() && !b.IsZero() && x.Bool("both timers") {
				t = max(a.Sub(d.m.now), b.Sub(d.m.now))
			}
			time.Sleep(t)
			d.m.now = d.m.now.Add(t)
			kinds = append(kinds, "time.Time")
			x.Logf("time passes: %v", t)
		}
		if len(todo) == 0 && !late {
			x.Skip()
		}
		synctest.Wait()
		order := perm(x, kinds)
		rev := len(todo) > 1 && ni > 0 && nm > 0 && x.Bool("later case first")
		x.Logf("taken in the order %v", order)
		vsel.Rank = func(elem string, i int) int {
			if rev {
				i = 100 - i
			}
			for k, o := range order {
				if o == elem {
					return k*1000 + i
				}
			}
			return 100000 + i
		}
		defer func() { vsel.Rank = nil }()
		d.release()
		synctest.Wait()
		x.Step(1)
		vsel.Rank = nil
		var cands []*mdl
		orders(d.m, todo, &cands)
		ws, got := d.news(), d.told()
		ev := "time: several things waiting"
		inv, cur, conn, br := d.invite, d.cur, d.conn, d.branch
		var first *fail
		for _, cand := range cands {
			if cand.unsettled {
				d.m = cand
				return
			}
			d.failure = nil
			d.m, d.invite, d.cur, d.conn, d.branch = cand, inv, cur, conn, maps.Clone(br)
			d.against(ev, ws, got, cand.out, cand.rep)
			if d.failure == nil {
				break
			}
			if first == nil || !strings.Contains(first.props, prop) && strings.Contains(d.failure.props, prop) {
				first = d.failure
			}
		}
		if d.failure != nil {
			d.failure = first
			if len(cands) > 1 {
				d.failure.props += " C22 C23"
				d.failure.detail += fmt.Sprintf("\n(none of %d orders of what was waiting explains it; told %q)", len(cands), got)
			}
			return
		}
		d.m.out, d.m.rep = nil, nil
		d.cover("burst")
		if !d.stop() {
			d.play(burstThen[x.Choose(len(burstThen), "then")])
		}
	})
}

func init() {
	add(mc.Suite{Name: "burst", Split: 3, Bound: fmt.Sprintf("after each of %d beginnings, the call held up by an application that does not read (at %d messages) while one of %d things waits at its socket, one of 4 at its inbound socket, 0..2 hang-ups are asked for and its timers go off or not; then everything taken in every order; then each of %d events", len(burstPrefixes), len(burstHold), len(burstMsgs)+3, len(burstThen))}, burst)
}
