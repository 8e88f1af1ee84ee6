package dlgh

import (
	"fmt"

	"verif/mc/mc"
)

var dialogProps = []string{"C22", "C23", "C24", "C25", "C26", "C27", "C28"}

func add(s mc.Suite, f func(x *mc.X, prop string)) {
	for _, p := range dialogProps {
		t := s
		t.Prop = p
		t.Run = func(x *mc.X) { f(x, p) }
		mc.Add(&t)
	}
}

func world() *conf {
	return &conf{
		max:   1,
		host:  "one.example",
		srv:   map[string][]string{"one.example": {"10.0.0.1:5060", "10.0.0.2:5062"}},
		hosts: map[string]string{"one.example": "10.0.0.1", "two.example": "10.0.0.30"},
	}
}

func names(evs []event) (s string) {
	for i, e := range evs {
		if i > 0 {
			s += ", "
		}
		s += e.name
	}
	return
}

var coreEvents = []event{e100, e180, e183, e200, e200rr, e486, e503, e302, eHangup, eNext, eRefused, eWRefused, eReinv, eAck, eOptions, eBye}

// inCall are the events that matter once a call is answered.
var inCall = []event{e200, e200t2, eReinv, eReinv2, eReinvS, eReinvC, eAck, eAckHigh, eOptions, eOne, eLowInv, eInfo, eNext, eHangup, eRefused, e486, e302, e100, eBye}

// renewed are those that have to do with retransmissions in a call.
var renewed = []event{eReinv, eReinv2, eAck, eAckHigh, eNext, eHangup, eOptions}

var all = []event{
	e100, e180, e183, e182, e180s, e200, e200rr, e200st, e200host, e200no, e200bare, e200t2, e202, e299, e199, e486, e486c, e487, e401, e503, e603,
	e300, e301, e302, e302same, e302none, e302bad, e301none, e200v6, e183held, eOther1, eOther2, eOther2b, eOther3, eOther3c, eOther3d, eOther3b, eOther4, eOther5, eOther6, eOther7, eOther8, eTwoVia, eRport, eOther9, eVer, eVer2, eVerO,
	eBye, eOptions, eOptSame, eOptBig, eReinv, eReinv2, eReinvS, eReinvC, eReinv0, eReinv6, eInfo, eCancel, eLow, eOne, eLowBye, eLowInv, eHops, eHopsBye, eHops1, eForeign, eForBye, eForInv, eForHop, eOdd, eOddAck, eForAck, eAckNoMF, eAck, eAckHigh,
	eGarbage, eNoVia, eEmpty, eKeep, eNext, eRefused, eBroken, eWRefused, eWBroken, eHangup,
}

var prefixes = [][]event{
	{}, {e100}, {e180, e183}, {e200}, {e200rr}, {e200st}, {e200host}, {e200, eReinv}, {e200, eReinv, eAck}, {e200, eHangup}, {e200rr, eHangup, e100}, {eHangup}, {e180, eHangup}, {eHangup, e200},
	{eRefused}, {e503}, {e302}, {eNext}, {eNext, eNext}, {e200, eOptBig}, {eReinv}, {eOptions, eNext}, {e200, eWRefused}, {eWBroken}, {e200no},
}

func listPrefixes() (s string) {
	for _, p := range prefixes {
		s += " [" + names(p) + "]"
	}
	return
}

func init() {
	n := mc.Pick(5, 6)
	add(mc.Suite{Name: "core", Split: 2, Bound: fmt.Sprintf("every sequence of %d of %d events (%s) on a call with two addresses", n, len(coreEvents), names(coreEvents))},
		func(x *mc.X, prop string) {
			run(x, prop, world(), func(d *drv) { d.explore(n, coreEvents) })
		})
	k := mc.Pick(2, 3)
	add(mc.Suite{Name: "wide", Split: 2, Bound: fmt.Sprintf("every sequence of %d of all %d events (%s) after each of %d beginnings (%s)", k, len(all), names(all), len(prefixes), listPrefixes())},
		func(x *mc.X, prop string) {
			p := prefixes[x.Choose(len(prefixes), "beginning")]
			run(x, prop, world(), func(d *drv) {
				for _, e := range p {
					if !d.stop() {
						d.play(e)
					}
				}
				d.explore(k, all)
			})
		})
	l := mc.Pick(4, 5)
	add(mc.Suite{Name: "answered", Split: 2, Bound: fmt.Sprintf("every sequence of %d of %d events (%s) after each of 4 answers (plain, with routes, with strict routes, with a host name)", l, len(inCall), names(inCall))},
		func(x *mc.X, prop string) {
			a := []event{e200, e200rr, e200st, e200host}[x.Choose(4, "answer")]
			c := world()
			c.max = 2
			run(x, prop, c, func(d *drv) {
				d.play(a)
				d.explore(l, inCall)
			})
		})
	r := mc.Pick(5, 7)
	add(mc.Suite{Name: "renewed", Split: 2, Bound: fmt.Sprintf("every sequence of %d of %d events (%s) in an answered call, with a limit of 1 and 2 retransmissions", r, len(renewed), names(renewed))},
		func(x *mc.X, prop string) {
			c := world()
			c.max = 1 + x.Choose(2, "max")
			run(x, prop, c, func(d *drv) {
				d.play(e200)
				d.explore(r, renewed)
			})
		})
	add(mc.Suite{Name: "failover", Split: 2, Bound: fmt.Sprintf("every list of 0..%d addresses x every fate of each of 9 (not dialled; refused on writing, on reading, on the first retransmission; silent; 503; 100 then 503; 180 then refused; 100 then hang-up then 503) x limit of 0..2 retransmissions; then answered and hung up", mc.Pick(3, 4))},
		failover)
	add(mc.Suite{Name: "setup", Split: 3, Bound: fmt.Sprintf("every combination of 5 ways to fill in the INVITE, %d kinds of destination, loose signalling (off, on, inbound socket not bound), 3 retransmission limits, 2 intervals, a CSeq draw of 0, timestamps and tracing on or off, and %d scripts", len(dests), len(scripts))},
		setups)
	add(mc.Suite{Name: "loose", Split: 2, Bound: fmt.Sprintf("every sequence of %d of %d events on a call with an inbound socket: each message at either socket, either socket failing, hang-up, time", mc.Pick(3, 4), len(looseEvents))},
		func(x *mc.X, prop string) {
			c := world()
			c.loose = true
			run(x, prop, c, func(d *drv) { d.explore(mc.Pick(3, 4), looseEvents) })
		})
	add(mc.Suite{Name: "slow", Split: 2, Bound: fmt.Sprintf("every sequence of %d of %d messages (%s) after each of %d beginnings, with the application not reading from any point on until %d messages are waiting, then reading", mc.Pick(4, 5), len(slowEvents), names(slowEvents), len(slowPrefixes), mc.Pick(4, 5))},
		slow)
}

var fates = []string{"undialable", "refused on writing", "refused on reading", "refused on retransmission", "silent", "503", "100 503", "180 refused", "100 hangup 503"}

func failover(x *mc.X, prop string) {
	n := x.Choose(mc.Pick(4, 5), "addresses")
	c := world()
	c.max = x.Choose(3, "max")
	c.bad = map[string]bool{}
	c.srv = map[string][]string{}
	c.host = "many.example"
	fate := make([]string, n)
	for i := range fate {
		a := fmt.Sprintf("10.0.1.%d:%d", i+1, 5060+i)
		if i == 1 {
			a = "target.example:5070" // named targets are looked up
			c.hosts["target.example"] = "10.0.1.2"
		}
		c.srv[c.host] = append(c.srv[c.host], a)
		fate[i] = fates[x.Choose(len(fates), "fate")]
		if fate[i] == "undialable" {
			if c.bad[a] = true; i == 1 && x.Bool("unresolved") {
				c.bad[a] = false
				delete(c.hosts, "target.example")
			}
		}
	}
	ans := x.Bool("answered in the end")
	// The first address is tried as soon as the call is made.
	var first []string
	for i := 0; i < n && (fate[i] == "undialable" || fate[i] == "refused on writing"); i++ {
		if fate[i] != "undialable" {
			first = append(first, "refused")
		}
	}
	c.wfault = first
	run(x, prop, c, func(d *drv) {
		for i := 0; i < n && !d.stop(); i++ {
			if i == n-1 && ans && fate[i] != "undialable" && fate[i] != "refused on writing" {
				break
			}
			// Fates of the following addresses that show while placing.
			next := func() {
				for j := i + 1; j < n && (fate[j] == "undialable" || fate[j] == "refused on writing"); j++ {
					if fate[j] != "undialable" {
						d.fault("refused")
					}
				}
			}
			switch fate[i] {
			case "refused on reading":
				next()
				d.play(eRefused)
			case "refused on retransmission":
				if c.max == 0 {
					next()
					d.play(eNext)
					break
				}
				d.fault("refused")
				next()
				d.play(eNext)
			case "silent":
				for k := 0; k <= c.max && !d.stop(); k++ {
					if k == c.max {
						next()
					}
					d.play(eNext)
				}
			case "503":
				d.writeOK() // the ACK
				next()
				d.play(e503)
			case "100 503":
				d.play(e100)
				d.play(eNext)
				d.writeOK()
				next()
				d.play(e503)
			case "180 refused":
				d.play(e180)
				next()
				d.play(eRefused)
			case "100 hangup 503":
				d.play(e100)
				d.play(eHangup)
				d.play(e503)
			}
		}
		for _, e := range []event{e180, e200, eNext, eHangup, eNext, e100, eNext} {
			if !d.stop() {
				d.play(e)
			}
		}
		if !d.stop() {
			d.play(e200)
		}
	})
}

type destination struct {
	name string
	set  func(c *conf)
}

var dests = []destination{
	{"IPv4", func(c *conf) { c.host = "10.0.0.1" }},
	{"IPv4 and port", func(c *conf) { c.host, c.port = "10.0.0.1", 5999 }},
	{"IPv6", func(c *conf) { c.host = "2001:db8::1" }},
	{"advertised", func(c *conf) {}},
	{"plain host", func(c *conf) { c.srv = nil }},
	{"host and port", func(c *conf) { c.port = 5998 }},
	{"unknown host", func(c *conf) { c.host = "nowhere.example" }},
	{"advertised, none reachable", func(c *conf) {
		c.bad = map[string]bool{"10.0.0.1:5060": true, "10.0.0.2:5062": true}
	}},
	{"same target twice", func(c *conf) {
		c.srv = map[string][]string{"one.example": {"10.0.0.1:5060", "10.0.0.1:5060", "one.example:5060"}}
	}},
}

var scripts = [][]event{
	{eNext, eNext, eNext, eNext, eNext, eNext, eNext, eNext, eNext},
	{e100, e180, e200, e200, eReinv, eAck, eNext, eHangup, eNext, e200},
	{e180, eHangup, e487},
	{e302, e183, e200rr, eBye},
	{e503, e200st, eHangup, eRefused},
	{eRefused, eWRefused, eNext, e200host, eReinv, eNext, eNext, eNext, eNext},
	{e302same, eNext, e301, eNext, e486c},
	{e183, e200, eOptions, eHangup, eNext, eNext, eNext, eNext},
}

func setups(x *mc.X, prop string) {
	c := world()
	c.style = x.Choose(5, "style")
	dests[x.Choose(len(dests), "destination")].set(c)
	switch x.Choose(3, "loose") {
	case 1:
		c.loose = true
	case 2:
		c.loose, c.listenBad = true, true
		if len(c.srv["one.example"]) > 2 {
			x.Skip() // whether the second, equal target can be used is not settled
		}
	}
	c.max = []int{0, 1, 3}[x.Choose(3, "max")]
	if x.Bool("fast") {
		c.interval = 50 * 1e6
	}
	c.cseq0 = x.Bool("CSeq 0")
	c.tags = x.Bool("timestamps and tracing")
	s := scripts[x.Choose(len(scripts), "script")]
	run(x, prop, c, func(d *drv) {
		for _, e := range s {
			if d.stop() {
				break
			}
			d.play(e)
		}
	})
}

func inbound(e event) event {
	return event{e.name + " (inbound)", func(d *drv) {
		d.inbound = true
		e.do(d)
		d.inbound = false
	}}
}

var looseEvents = func() (r []event) {
	for _, e := range []event{e100, e183, e200, e200rr, e486, e503, e302, eReinv, eAck, eOptions, eBye, eForeign} {
		r = append(r, e, inbound(e))
	}
	return append(r, eRefused, eHangup, eNext,
		event{"fault: inbound socket refused", func(d *drv) { d.readError("refused", true) }},
		event{"fault: inbound socket broken", func(d *drv) { d.readError("broken", true) }})
}()

var slowEvents = []event{e100, e183, e200, e200rr, e486, eReinv, eAck, eOptions, eBye, eForeign, eGarbage, eOther1}
var slowPrefixes = [][]event{{}, {e100}, {e200}, {e200, eReinv}, {e200, eHangup}}

func slow(x *mc.X, prop string) {
	p := slowPrefixes[x.Choose(len(slowPrefixes), "beginning")]
	n := mc.Pick(4, 5)
	from := x.Choose(n, "reads until")
	run(x, prop, world(), func(d *drv) {
		for _, e := range p {
			d.play(e)
		}
		for i := 0; i < n && !(d.stop() && !d.frozen); i++ {
			if i == from {
				d.freeze()
			}
			e := slowEvents[x.Choose(len(slowEvents), "message")]
			x.Logf("%s", e.name)
			e.do(d)
		}
		if d.failure == nil {
			d.release()
			d.settle("time: the application reads again")
		}
	})
}
