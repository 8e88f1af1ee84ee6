package e2eh

import (
	"fmt"
	"strings"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"

	"verif/mc/mc"
)

const ms = time.Millisecond

func invite(host string, port uint16) *sip.Msg {
	return &sip.Msg{
		Method:  sip.MethodInvite,
		Request: &sip.URI{Scheme: "sip", User: "bob", Host: host, Port: port},
		From:    &sip.Addr{Display: "Alice", Uri: &sip.URI{Scheme: "sip", User: "alice", Host: "a.example"}},
		Payload: &sdp.SDP{Session: "call", Time: "0 0", Audio: &sdp.Media{Proto: "RTP/AVP", Port: 40404, Codecs: []sdp.Codec{sdp.ULAWCodec}}},
	}
}

// scen is a way a call can go.
type scen struct {
	name  string
	loose bool
	msg   func() *sip.Msg
	set   func(s *sim) *uas // makes the other hosts; the callee who matters
	hang  time.Duration     // the caller hangs up so long after having been answered; <0: not
	at    time.Duration     // or at this moment
	want  string            // how it has to end: "hangup", "response 486", ...
	talk  bool              // it has to be answered
}

func ring(d1, d2 time.Duration, then func(u *uas, t *tx)) func(u *uas, t *tx) {
	return func(u *uas, t *tx) {
		if d1 >= 0 {
			u.s.after(d1, "ring", func() { u.answer(t, 180, false) })
		}
		u.s.after(d2, "decide", func() {
			if !t.final {
				then(u, t)
			}
		})
	}
}

func take(u *uas, t *tx) { u.answer(t, 200, true) }

func decline(status int) func(u *uas, t *tx) {
	return func(u *uas, t *tx) { u.answer(t, status, false) }
}

func then(f func(u *uas, t *tx), d time.Duration, g func(u *uas)) func(u *uas, t *tx) {
	return func(u *uas, t *tx) {
		f(u, t)
		u.s.after(d, "go on", func() { g(u) })
	}
}

func direct(script func(u *uas, t *tx)) func(s *sim) *uas {
	return func(s *sim) *uas { return s.uas("callee", "10.0.0.2", 5060, script) }
}

const never = -1

var scens = []scen{
	{name: "rings, is answered, caller hangs up", set: direct(ring(3*ms, 1003*ms, take)), hang: 500 * ms, want: "hangup", talk: true},
	{name: "is answered at once, caller hangs up", set: direct(take), hang: 300 * ms, want: "hangup", talk: true},
	{name: "early media, is answered, caller hangs up", set: direct(func(u *uas, t *tx) {
		u.answer(t, 100, false)
		u.s.after(203*ms, "early media", func() { u.answer(t, 183, true) })
		u.s.after(777*ms, "answer", func() { take(u, t) })
	}), hang: 500 * ms, want: "hangup", talk: true},
	{name: "callee hangs up", set: direct(then(ring(3*ms, 703*ms, take), 1600*ms, (*uas).hangup)), hang: never, want: "hangup", talk: true},
	{name: "declined", set: direct(ring(3*ms, 703*ms, decline(486))), hang: never, want: "response 486"},
	{name: "declined at once", set: direct(decline(603)), hang: never, want: "response 603"},
	{name: "cancelled while ringing", set: direct(ring(3*ms, 4003*ms, take)), hang: never, at: 900 * ms, want: "response 487|hangup"},
	{name: "callee moves, caller hangs up", set: direct(then(ring(3*ms, 303*ms, take), 1500*ms, (*uas).move)), hang: 5000 * ms, want: "hangup", talk: true},
	{name: "callee moves twice, hangs up", set: direct(func(u *uas, t *tx) {
		take(u, t)
		u.s.after(1500*ms, "move", u.move)
		u.s.after(4600*ms, "move", u.move)
		u.s.after(7700*ms, "hang up", u.hangup)
	}), hang: never, want: "hangup", talk: true},
	{name: "callee moves twice in a row, pings, hangs up", set: direct(func(u *uas, t *tx) {
		take(u, t)
		u.settle = []func(){u.move, u.ping}
		u.s.after(1500*ms, "move", u.move)
		u.s.after(8000*ms, "hang up", u.hangup)
	}), hang: never, want: "hangup", talk: true},
	{name: "callee's media goes to other hosts, hangs up", set: direct(func(u *uas, t *tx) {
		take(u, t)
		u.s.after(1500*ms, "move", u.moveHost)
		u.s.after(4600*ms, "move", u.moveHost)
		u.s.after(7700*ms, "hang up", u.hangup)
	}), hang: never, want: "hangup", talk: true},
	{name: "callee moves as soon as it can, and again later", set: direct(func(u *uas, t *tx) {
		take(u, t)
		u.move()
		u.s.after(3500*ms, "move", u.move)
	}), hang: 6000 * ms, want: "hangup", talk: true},
	{name: "callee hangs up as soon as it can", set: direct(func(u *uas, t *tx) {
		take(u, t)
		u.hangup()
	}), hang: never, want: "hangup", talk: true},
	{name: "callee moves while the caller hangs up", set: direct(then(take, 303*ms, (*uas).move)), hang: 300 * ms, want: "hangup", talk: true},
	{name: "both hang up", set: direct(then(ring(3*ms, 303*ms, take), 603*ms, (*uas).hangup)), hang: 297 * ms, want: "hangup", talk: true},
	{name: "redirected", set: func(s *sim) *uas {
		s.uas("first", "10.0.0.4", 5064, func(u *uas, t *tx) {
			r := u.reply(t.req, 302, false)
			r.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "robert", Host: "10.0.0.2"}}
			t.resp, t.final = r, true
			u.send(r)
			u.again(t)
		})
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg { return invite("10.0.0.4", 5064) }, hang: 300 * ms, want: "hangup", talk: true},
	{name: "redirected to another user of the same server", set: direct(func(u *uas, t *tx) {
		if t.req.Request.User == "bob" {
			u.calls--
			r := u.reply(t.req, 301, false)
			r.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "robert", Host: "10.0.0.2"}}
			t.resp, t.final = r, true
			u.send(r)
			u.again(t)
			return
		}
		ring(3*ms, 303*ms, take)(u, t)
	}), hang: 300 * ms, want: "hangup", talk: true},
	{name: "first address unavailable", set: func(s *sim) *uas {
		s.uas("first", "10.0.0.4", 5064, decline(503))
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg { return invite("srv.example", 0) }, hang: 300 * ms, want: "hangup", talk: true},
	{name: "first address silent", set: func(s *sim) *uas {
		s.uas("first", "10.0.0.4", 5064, nil).ghost = true
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg { return invite("srv.example", 0) }, hang: 300 * ms, want: "hangup", talk: true},
	{name: "first address refuses", set: func(s *sim) *uas {
		s.refuse["10.0.0.4"] = true
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg { return invite("srv.example", 0) }, hang: 300 * ms, want: "hangup", talk: true},
	{name: "nobody there", set: func(s *sim) *uas { return nil }, msg: func() *sip.Msg { return invite("srv.example", 0) }, hang: never, want: "contact"},
	{name: "through a proxy on the path, caller hangs up", set: func(s *sim) *uas {
		s.proxy("proxy", "10.0.0.9", 5099, true, "", 0)
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg {
		m := invite("10.0.0.2", 0)
		m.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "10.0.0.9", Port: 5099, Param: &sip.URIParam{Name: "lr"}}}
		return m
	}, hang: 300 * ms, want: "hangup", talk: true},
	{name: "through two proxies, callee moves and hangs up", set: func(s *sim) *uas {
		s.proxy("edge", "10.0.0.9", 5060, true, "10.0.0.10", 5070)
		s.proxy("core", "10.0.0.10", 5070, true, "10.0.0.2", 5062)
		return s.uas("callee", "10.0.0.2", 5062, func(u *uas, t *tx) {
			take(u, t)
			u.s.after(1500*ms, "move", u.move)
			u.s.after(4600*ms, "hang up", u.hangup)
		})
	}, msg: func() *sip.Msg { return invite("10.0.0.9", 0) }, hang: never, want: "hangup", talk: true},
	{name: "behind a translator", set: func(s *sim) *uas {
		s.nat = true
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, hang: 300 * ms, want: "hangup", talk: true},
	{name: "behind a translator that keeps the ports", set: func(s *sim) *uas {
		s.nat, s.shift = true, 0
		return s.uas("callee", "10.0.0.2", 5060, then(ring(3*ms, 303*ms, take), 1500*ms, (*uas).move))
	}, hang: 2500 * ms, want: "hangup", talk: true},
	{name: "declined behind a translator and through a proxy", set: func(s *sim) *uas {
		s.nat = true
		s.proxy("proxy", "10.0.0.9", 5099, true, "10.0.0.2", 5060)
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, decline(404)))
	}, msg: func() *sip.Msg { return invite("10.0.0.9", 5099) }, hang: never, want: "response 404"},
	{name: "callee answers from elsewhere, hangs up", loose: true, set: func(s *sim) *uas {
		u := s.uas("callee", "10.0.0.2", 5060, then(ring(3*ms, 303*ms, take), 1600*ms, (*uas).hangup))
		s.alias = func(d *dgram) {
			if u.call != nil && u.call.acked && d.src.IP.String() == "10.0.0.2" {
				d.src.Port = 5999
			}
		}
		return u
	}, hang: never, want: "hangup", talk: true},
}

const horizon = 40 * time.Second

// longest is more than the number of datagrams of a call without faults.
const longest = 48

// play lets a scenario run and judges how it ended.
// first is the number of the first datagram which is not simply delivered;
// 0: open.
func play(x *mc.X, sc *scen, budget, max, first int, at, uasAt time.Duration) {
	world(x, budget, max, sc.loose, func(s *sim) {
		s.first = first
		u := sc.set(s)
		m := invite("10.0.0.2", 0)
		if sc.msg != nil {
			m = sc.msg()
		}
		c := s.call(m)
		if at > 0 {
			s.after(at, "hang up", c.hangup)
		}
		if uasAt > 0 {
			s.after(uasAt, "callee hangs up", u.hangup)
		}
		planned := false
		s.run(horizon, func() bool {
			if sc.hang >= 0 && !planned && c.said(dialog.Answered) > 0 {
				planned = true
				s.after(sc.hang, "hang up", c.hangup)
			}
			return c.closed
		})
		s.say("states %v errors %v peers %v", c.states, c.errs, c.peers)
		if !c.closed {
			s.fail("the call never ends", "")
		}
		s.run(s.now()+6*time.Second, nil)
		if cur == nil {
			judge(s, sc, c, u)
		}
		if first > 0 && s.n < first {
			x.Skip() // it has fewer
		}
		x.Cover("outcome", sc.name+" "+fmt.Sprint(c.states, len(c.errs), c.peers, s.n, c.endAt))
		x.Checked(1)
	})
}

func judge(s *sim, sc *scen, c *caller, u *uas) {
	// What the application was told.
	ans := false
	for i, v := range c.states {
		switch {
		case v == dialog.Hangup && i != len(c.states)-1:
			s.fail("told more after hang-up", "%v", c.states)
		case ans && v != dialog.Hangup:
			s.fail("told more after the answer", "%v", c.states)
		case v == dialog.Answered:
			ans = true
		}
	}
	end := "hangup"
	if len(c.errs) > 0 {
		end = errText(c.errs[0])
	}
	if len(c.errs) > 1 || len(c.errs) == 1 && c.said(dialog.Hangup) > 0 || len(c.errs) == 0 && c.said(dialog.Hangup) != 1 {
		s.fail("not exactly one end", "states %v, errors %v", c.states, c.errs)
	}
	fine := false
	for _, w := range strings.Split(sc.want, "|") {
		fine = fine || w == end
	}
	if !fine {
		s.fail("ends in another way", "%s instead of %s", end, sc.want)
	}
	if sc.talk && !ans {
		s.fail("not told of the answer", "%v", c.states)
	}
	if u == nil {
		return
	}
	// What became of the other side.
	if ans != (u.call != nil) && !(u.call != nil && c.asked && u.over) {
		s.fail("one side believes in a call, the other does not", "caller %v, callee %v", ans, u.call != nil)
	}
	if u.call != nil {
		if !u.over {
			s.fail("the callee is left with a call", "")
		}
		if u.gaveUp {
			s.fail("the answer was never acknowledged", "")
		}
		if end == "hangup" && c.asked && u.byes == 0 && u.out == nil {
			s.fail("no BYE", "")
		}
		last := ""
		if len(c.peers) > 0 {
			last = c.peers[len(c.peers)-1]
		}
		if len(u.sdps) > 0 && last != u.sdps[len(u.sdps)-1] && (u.telling == "" || last != u.telling) {
			s.fail("media not where the callee is", "told %v, callee said %v", c.peers, u.sdps)
		}
	}
	if u.calls > 1 {
		s.fail("called more than once", "%d times", u.calls)
	}
	if strings.HasPrefix(end, "response 487") && s.cancels == 0 {
		s.fail("no CANCEL", "")
	}
	for _, k := range s.w.Open() {
		if k.LocalAddr().String()[:9] == "10.0.0.1:" {
			s.fail("a socket of the call is left", "%s", k.LocalAddr())
		}
	}
	for _, t := range u.txs {
		if ms, ok := t.req.Payload.(*sdp.SDP); !ok || ms.Addr != "10.0.0.1" || ms.Audio == nil || ms.Audio.Port != 40404 {
			s.fail("the offer did not arrive", "%s", t.req)
		}
	}
}

// crossing is what goes on around the moment of 1003 ms while the caller hangs
// up.
var crossings = []scen{
	{name: "the answer", set: direct(ring(3*ms, 1003*ms, take)), want: "hangup|response 487"},
	{name: "the answer, without ringing", set: direct(func(u *uas, t *tx) {
		u.answer(t, 100, false)
		ring(-1, 1003*ms, take)(u, t)
	}), want: "hangup|response 487"},
	{name: "refusal", set: direct(ring(3*ms, 1003*ms, decline(486))), want: "response 486|response 487"},
	{name: "redirection", set: func(s *sim) *uas {
		s.uas("first", "10.0.0.4", 5064, ring(3*ms, 1003*ms, func(u *uas, t *tx) {
			r := u.reply(t.req, 302, false)
			r.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "robert", Host: "10.0.0.2"}}
			t.resp, t.final = r, true
			u.send(r)
			u.again(t)
		}))
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg { return invite("10.0.0.4", 5064) }, want: "hangup|response 487|response 302"},
	{name: "unavailability", set: func(s *sim) *uas {
		s.uas("first", "10.0.0.4", 5064, ring(3*ms, 1003*ms, decline(503)))
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg { return invite("srv.example", 0) }, want: "hangup|response 487|response 503"},
	{name: "the move to another address", set: func(s *sim) *uas {
		s.uas("first", "10.0.0.4", 5064, nil).ghost = true
		return s.uas("callee", "10.0.0.2", 5060, ring(3*ms, 303*ms, take))
	}, msg: func() *sip.Msg { return invite("srv.example", 0) }, want: "hangup|response 487|contact"},
	{name: "callee's BYE", set: direct(then(take, 1003*ms, (*uas).hangup)), want: "hangup"},
	{name: "callee's move", set: direct(then(take, 1003*ms, (*uas).move)), want: "hangup"},
	{name: "callee's move, then BYE", set: direct(then(then(take, 1003*ms, (*uas).move), 1023*ms, (*uas).hangup)), want: "hangup"},
}

// moments are those at which the caller hangs up.
var moments = func() (ts []time.Duration) {
	for t := 0; t < 36; t++ {
		ts = append(ts, time.Duration(t)*ms+500*time.Microsecond)
	}
	for t := 985; t < 1045; t++ {
		ts = append(ts, time.Duration(t)*ms+500*time.Microsecond)
	}
	for t := 100; t < 2500; t += 100 {
		ts = append(ts, time.Duration(t)*ms+500*time.Microsecond)
	}
	return
}()

func init() {
	F := mc.Pick(3, 4)
	M := mc.Pick(2, 3)
	mc.Add(&mc.Suite{Prop: "C32", Name: "faults",
		Bound: fmt.Sprintf("every way to lose, double or hold up up to %d of the datagrams, of each transaction up to %d, of each of %d calls: %s", F, M, len(scens), names(scens)),
		Split: 5,
		Run: func(x *mc.X) {
			sc := &scens[x.Choose(len(scens), "scenario")]
			if first := x.Choose(longest+1, "first fault"); first > 0 {
				play(x, sc, F, M, first, sc.at, 0)
			} else {
				play(x, sc, 0, M, 0, sc.at, 0)
			}
		}})
	G := mc.Pick(2, 3)
	mc.Add(&mc.Suite{Prop: "C32", Name: "crossing",
		Bound: fmt.Sprintf("the caller hanging up at each of %d moments, every millisecond around the beginning and around each of %d events at the other side (%s), and up to %d faults", len(moments), len(crossings), names(crossings), G),
		Split: 3,
		Run: func(x *mc.X) {
			sc := crossings[x.Choose(len(crossings), "event")]
			sc.hang = never
			play(x, &sc, G, G, 0, moments[x.Choose(len(moments), "moment")], 0)
		}})
}

func names(ss []scen) string {
	var ns []string
	for _, s := range ss {
		ns = append(ns, s.name)
	}
	return strings.Join(ns, "; ")
}
