package tph

import (
	"errors"
	"fmt"
	"net"
	"strconv"
	"strings"

	"github.com/jart/gosip/dialog"

	"verif/mc/mc"
	"verif/mc/shim/vnet"
)

func listOf(r *dialog.AddressRoute) (s []string) {
	for ; r != nil && len(s) < 1000; r = r.Next {
		s = append(s, r.Address)
	}
	return
}

var srvTargets = []struct {
	t string
	p uint16
}{{"a.example.", 5060}, {"a.example.", 5061}, {"b.example", 5060}, {"10.0.0.7", 1}, {"2001:db8::7", 65535}}

func init() {
	hosts := []string{"10.0.0.1", "0.0.0.0", "255.255.255.255", "2001:db8::1", "::1", "::", "::ffff:10.0.0.1", "one.example", "a", "localhost", "one.example.", "1.2.3", "xn--e1afmkfd.example"}
	ports := []uint16{0, 1, 5059, 5060, 5061, 40000, 65535}
	answers := []string{"v4", "v6", "v6 v4", "v4 v4", "fails"}
	mc.Add(&mc.Suite{Prop: "C21", Name: "resolve", Split: 3, Bound: fmt.Sprintf("%d hosts, %d ports, service wanted or not, every service answer of up to %d of %d records or a failure, %d host answers", len(hosts), len(ports), mc.Pick(4, 5), len(srvTargets), len(answers)),
		Run: func(x *mc.X) {
			host := hosts[x.Choose(len(hosts), "host")]
			port := ports[x.Choose(len(ports), "port")]
			want := x.Bool("service wanted")
			n := x.Choose(mc.Pick(4, 5)+2, "records")
			var srvs []*net.SRV
			var served []string
			for i := 1; i < n; i++ {
				t := srvTargets[x.Choose(len(srvTargets), "record")]
				srvs = append(srvs, &net.SRV{Target: t.t, Port: t.p, Priority: uint16(10 - i), Weight: uint16(i)})
				served = append(served, net.JoinHostPort(t.t, strconv.Itoa(int(t.p))))
			}
			ans := answers[x.Choose(len(answers), "host answer")]
			w := vnet.NewWorld()
			vnet.Cur = w
			down := errors.New("no answer")
			w.SRV = func(s, p, n2 string) ([]*net.SRV, error) {
				if s != "sip" || p != "udp" || n2 != host {
					x.Violate("wrong service", "%s %s %s", s, p, n2)
				}
				if n == 0 {
					return nil, down
				}
				return srvs, nil
			}
			w.Host = func(name string) ([]net.IP, error) {
				if name != host {
					x.Violate("wrong name", "%s", name)
				}
				var ips []net.IP
				for i, a := range strings.Fields(ans) {
					switch a {
					case "v4":
						ips = append(ips, net.IPv4(10, 0, 1, byte(i)))
					case "v6":
						ips = append(ips, net.ParseIP("2001:db8::8"))
					default:
						return nil, down
					}
				}
				return ips, nil
			}
			var r *dialog.AddressRoute
			var err error
			x.NoCrash("crash", func() { r, err = dialog.RouteAddress(host, port, want) })
			x.Step(1)
			x.Checked(1)
			got := listOf(r)
			var nsrv, nhost int
			for _, o := range w.Snapshot() {
				switch o.Kind {
				case "srv":
					nsrv++
				case "host":
					nhost++
				}
			}
			var exp []string
			ps := strconv.Itoa(int(or5060(port)))
			fail := false
			switch {
			case net.ParseIP(host) != nil:
				exp = []string{net.JoinHostPort(host, ps)}
				if nsrv+nhost > 0 {
					x.Violate("lookup of an address", "%d %d", nsrv, nhost)
				}
			case port == 0 && want && n > 1:
				exp = served
				if nsrv == 0 {
					x.Violate("service not looked up", "")
				}
			default:
				if (port != 0 || !want) && nsrv > 0 {
					x.Violate("service looked up", "%d times", nsrv)
				}
				switch ans {
				case "fails":
					fail = true
				case "v6":
					exp = []string{"[2001:db8::8]:" + ps}
				case "v6 v4":
					exp = []string{"10.0.1.1:" + ps}
				default:
					exp = []string{"10.0.1.0:" + ps}
				}
			}
			if fail {
				if err == nil || r != nil {
					x.Violate("no error", "%v %v", got, err)
				}
				x.CoverH("distinct", mc.Hash(host+"fails"))
				return
			}
			if err != nil {
				x.Violate("error", "%v", err)
			}
			if strings.Join(got, " ") != strings.Join(exp, " ") {
				// The same address may be written in another way.
				ok := len(got) == 1 && len(exp) == 1 && net.ParseIP(host) != nil
				if ok {
					h, p, e := net.SplitHostPort(got[0])
					ok = e == nil && p == ps && net.ParseIP(host).Equal(net.ParseIP(h))
				}
				if !ok {
					x.Violate("addresses", "%v, should be %v", got, exp)
				}
			}
			x.CoverH("distinct", mc.Hash(strings.Join(exp, " ")))
		}})
	mc.Add(&mc.Suite{Prop: "C21", Name: "ports", Bound: "every port number, for an IPv4 address, an IPv6 address and a name with one service record at that port",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			w := vnet.NewWorld()
			vnet.Cur = w
			w.SRV = func(s, p, n string) ([]*net.SRV, error) {
				return []*net.SRV{{Target: "t.example.", Port: uint16(i)}}, nil
			}
			w.Host = func(n string) ([]net.IP, error) { return []net.IP{net.IPv4(10, 0, 1, 0)}, nil }
			is := func(host string, port uint16, exp string) {
				r, err := dialog.RouteAddress(host, port, true)
				x.Step(1)
				x.Checked(1)
				if err != nil || len(listOf(r)) != 1 || listOf(r)[0] != exp {
					x.Violate("port", "%s port %d gives %v %v, should be %s", host, port, listOf(r), err, exp)
				}
				x.CoverH("distinct", mc.Hash(exp))
			}
			p := strconv.Itoa(int(or5060(uint16(i))))
			is("10.0.0.1", uint16(i), "10.0.0.1:"+p)
			is("2001:db8::1", uint16(i), "[2001:db8::1]:"+p)
			if i > 0 {
				is("one.example", uint16(i), "10.0.1.0:"+p)
				is("one.example", 0, "t.example.:"+p)
			}
		}})
}
