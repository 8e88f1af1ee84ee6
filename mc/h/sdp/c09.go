package sdph

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"net"
	"strings"

	"github.com/jart/gosip/sdp"

	"verif/mc/mc"
	"verif/mc/shim/vrand"
)

var draws uint64

type counter struct{}

func (counter) Read(b []byte) (int, error) {
	for i := range b {
		if i%8 == 0 {
			draws++
		}
		b[i] = byte(draws * 0x9e3779b97f4a7c15 >> (8 * (i % 8)))
	}
	return len(b), nil
}

func seedRandom() {
	rand.Reader = counter{}
	vrand.Use(func() uint64 { draws++; return draws * 0x9e3779b97f4a7c15 })
}

// normal is a description as it is after omitted fields took their defaults.
func normal(s *sdp.SDP, back *sdp.SDP) *sdp.SDP {
	n := *s
	if n.Origin.User == "" {
		n.Origin.User = "-"
	}
	if n.Origin.ID == "" {
		n.Origin.ID = back.Origin.ID
	}
	if n.Origin.Version == "" {
		n.Origin.Version = n.Origin.ID
	}
	if n.Origin.Addr == "" {
		n.Origin.Addr = back.Origin.Addr
	}
	if n.Addr == "" {
		n.Addr = back.Addr
	}
	if n.Session == "" {
		n.Session = back.Session
	}
	if n.Time == "" {
		n.Time = "0 0"
	}
	fix := func(m *sdp.Media) *sdp.Media {
		if m == nil || m.Proto != "" {
			return m
		}
		c := *m
		c.Proto = "RTP/AVP"
		return &c
	}
	n.Audio, n.Video = fix(n.Audio), fix(n.Video)
	return &n
}

func back(x *mc.X, s *sdp.SDP, key string) {
	before := dump(s)
	var text string
	x.NoCrash("crash writing: "+key, func() { text = s.String() })
	x.Eq(dump(s), before, "modified by writing: "+key)
	got, err := sdp.Parse(text)
	x.Step(2)
	if err != nil {
		x.Violate("written description refused: "+key, "%q: %v", text, err)
	}
	d := dump(normal(s, got))
	x.Eq(dump(got), d, "differs: "+key)
	x.Eq(got.String(), text, "written again: "+key)
	for _, f := range []string{got.Origin.User, got.Origin.ID, got.Origin.Version, got.Origin.Addr, got.Addr, got.Session, got.Time} {
		if f == "" {
			x.Violate("blank where something is needed: "+key, "%q", text)
		}
	}
	if s.Origin.ID != "" {
		var b bytes.Buffer
		b.WriteString("kept")
		s.Append(&b)
		x.Eq(b.String(), "kept"+text, "appended: "+key)
		x.Eq(string(s.Data()), text, "data: "+key)
	}
	if !strings.HasPrefix(text, "v=0\r\n") || !strings.HasSuffix(text, "\r\n") || strings.Count(text, "\r") != strings.Count(text, "\r\n") || strings.Count(text, "\n") != strings.Count(text, "\r\n") {
		x.Violate("line ends: "+key, "%q", text)
	}
	x.CoverH("distinct", mc.Hash(d))
}

var (
	names  = []string{"PCMU", "opus", "telephone-event", "x", "G7221", "L16"}
	rates  = []int{8000, 48000, 16000, 0, 1, 2147483647, 9223372036854775807}
	parms  = []string{"", "1", "2", "x y", "0", "=:;"}
	fmtps  = []string{"", "0-16", "a=b; c=\"d\"", "96 97", "apt=0/1:2"}
	addrs  = []string{"1.2.3.4", "255.255.255.255", "::", "dead:beef::666", "fe80::1%eth0", "::ffff:1.2.3.4", ""}
	protos = []string{"RTP/AVP", "", "RTP/SAVP", "TCP/IP", "x"}
)

func codecs(x *mc.X, n int, label string) (cs []sdp.Codec) {
	all := []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec, sdp.Opus, {PT: 0, Name: "odd", Rate: 5, Fmtp: "f"}, {PT: 96, Name: "H264", Rate: 90000, Fmtp: "packetization-mode=1"}, {PT: 127, Name: "a-b.c", Rate: 1, Param: "6"}, {PT: 255, Name: "é", Rate: 3}, {PT: 10, Name: "L16", Rate: 44100}, {PT: 9, Name: "G722", Rate: 8000}, {PT: 19, Name: "reserved", Rate: 0}}
	seen := map[uint8]bool{}
	for i := 0; i < n; i++ {
		j := x.Choose(len(all)+min(i, 1), label)
		if j == len(all) {
			break
		}
		if seen[all[j].PT] {
			x.Skip()
		}
		seen[all[j].PT] = true
		cs = append(cs, all[j])
	}
	return
}

func pairs(x *mc.X, n int, label string, all [][2]string) (r [][2]string) {
	for i := 0; i < n; i++ {
		j := x.Choose(len(all)+1, label)
		if j == 0 {
			break
		}
		r = append(r, all[j-1])
	}
	return
}

var attrs = [][2]string{{"x", ""}, {"x", "y"}, {"silenceSupp", "off - - - -"}, {"candidate", "1:2=3"}, {"rtpmap", ""}, {"fmtp", ""}, {"ptime", ""}, {"sendonlyx", ""}, {"inactive", ""}, {"ptimes", "5"}, {" ", " "}, {"maxptime", "60"}, {"x", ":y"}, {"rtpmaps", "0 x/1"}, {"=", "="}}

var others = [][2]string{{"b", "AS:64"}, {"b", "CT:1"}, {"i", "an info"}, {"z", "="}, {"k", ":"}, {"x", "a=b"}, {"V", "0"}, {"A", "sendonly"}, {"r", " "}}

func init() {
	mc.Add(&mc.Suite{Prop: "C09", Name: "media", Bound: "every audio and video list of up to 3 and 2 of 10 codecs, also with shared payload types, x protocols",
		Split: 2,
		Run: func(x *mc.X) {
			seedRandom()
			s := &sdp.SDP{Addr: "1.2.3.4", Origin: sdp.Origin{User: "u", ID: "5", Version: "6", Addr: "4.3.2.1"}, Session: "s", Time: "0 0"}
			w := x.Choose(3, "media")
			if w != 1 {
				s.Audio = &sdp.Media{Proto: x.OneOf("proto", protos...), Port: 30126, Codecs: codecs(x, mc.Pick(3, 4), "audio")}
			}
			if w != 0 {
				s.Video = &sdp.Media{Proto: "V", Port: 9, Codecs: codecs(x, 2, "video")}
			}
			back(x, s, "media")
		}})
	mc.Add(&mc.Suite{Prop: "C09", Name: "codecs", Bound: "every payload type x 6 names x 7 rates x 6 parameters x 5 formats, as audio and as video",
		N: func() int64 { return 256 },
		Case: func(x *mc.X, i int64) {
			seedRandom()
			for _, n := range names {
				for _, r := range rates {
					for _, p := range parms {
						for _, f := range fmtps {
							m := &sdp.Media{Proto: "RTP/AVP", Port: uint16(i * 257), Codecs: []sdp.Codec{{PT: uint8(i), Name: n, Rate: r, Param: p, Fmtp: f}}}
							s := &sdp.SDP{Addr: "1.2.3.4", Origin: sdp.Origin{ID: "5", Addr: "4.3.2.1"}}
							if (len(n)+len(p)+len(f))%2 == 0 {
								s.Audio = m
							} else {
								s.Video = m
							}
							back(x, s, "codec")
						}
					}
				}
			}
		}})
	mc.Add(&mc.Suite{Prop: "C09", Name: "fields", Bound: "addresses x origins x session x time x ptime x direction x media presence, every combination",
		Split: 3,
		Run: func(x *mc.X) {
			seedRandom()
			s := &sdp.SDP{
				Addr:    x.OneOf("addr", addrs...),
				Origin:  sdp.Origin{User: x.OneOf("user", "", "-", "root"), ID: x.OneOf("id", "", "1", "3366701332"), Version: x.OneOf("version", "", "2"), Addr: x.OneOf("oaddr", addrs...)},
				Session: x.OneOf("session", "", "-", "pokémon", "a=b:c \" ", " "), Time: x.OneOf("time", "", "0 0", "1 2", " "),
				Ptime: []int{0, 1, 20, 30, 2147483647}[x.Choose(5, "ptime")]}
			switch x.Choose(3, "direction") {
			case 1:
				s.SendOnly = true
			case 2:
				s.RecvOnly = true
			}
			w := x.Choose(3, "media")
			if w != 1 {
				s.Audio = &sdp.Media{Port: 1, Codecs: []sdp.Codec{sdp.ULAWCodec}}
			}
			if w != 0 {
				s.Video = &sdp.Media{Port: 65535, Codecs: []sdp.Codec{{PT: 31, Name: "H261", Rate: 90000}}}
			}
			back(x, s, "fields")
		}})
	mc.Add(&mc.Suite{Prop: "C09", Name: "extras", Bound: "every list of up to 3 of 15 attributes and up to 2 (thorough: 3) of 9 other lines, x direction and ptime",
		Split: 2,
		Run: func(x *mc.X) {
			seedRandom()
			s := &sdp.SDP{Addr: "::1", Origin: sdp.Origin{ID: "1", Addr: "::2"}, Audio: &sdp.Media{Port: 5, Codecs: []sdp.Codec{sdp.DTMFCodec, sdp.ULAWCodec}}}
			s.Attrs = pairs(x, 3, "attr", attrs)
			s.Other = pairs(x, mc.Pick(2, 3), "other", others)
			if d := x.Choose(2, "direction"); d == 1 {
				s.SendOnly = len(s.Attrs)%2 == 0
				s.RecvOnly = !s.SendOnly
				s.Ptime = 30
			}
			back(x, s, "extras")
		}})
	mc.Add(&mc.Suite{Prop: "C09", Name: "ports", Bound: "every port in audio and video; every ptime below 65536",
		N: func() int64 { return 65536 },
		Case: func(x *mc.X, i int64) {
			s := &sdp.SDP{Addr: "1.2.3.4", Ptime: int(i), Origin: sdp.Origin{ID: "1", Addr: "1.1.1.1"}, Audio: &sdp.Media{Port: uint16(i), Codecs: []sdp.Codec{sdp.ULAWCodec}}, Video: &sdp.Media{Port: uint16(i * 7), Codecs: []sdp.Codec{sdp.Opus}}}
			back(x, s, "ports")
		}})
	ips := []net.IP{net.IPv4(1, 2, 3, 4), net.IPv4(1, 2, 3, 4).To4(), net.IPv4(0, 0, 0, 0), net.ParseIP("dead:beef::666"), net.IPv6zero, net.ParseIP("::ffff:9.8.7.6"), net.IPv4bcast}
	mc.Add(&mc.Suite{Prop: "C09", Name: "offers", Bound: "New with 7 addresses x 7 ports x every list of up to 3 of 10 codecs, the caller's list overwritten afterwards",
		Split: 3,
		Run: func(x *mc.X) {
			seedRandom()
			ip := ips[x.Choose(len(ips), "ip")]
			port := []int{0, 1, 5060, 16384, 32767, 32768, 65535}[x.Choose(7, "port")]
			var cs []sdp.Codec
			if x.Bool("codecs") {
				cs = codecs(x, 3, "codec")
			}
			keep := append([]sdp.Codec{}, cs...)
			a := &net.UDPAddr{IP: ip, Port: port}
			s := sdp.New(a, cs...)
			t := sdp.New(a, cs...)
			x.Step(2)
			want := func(s *sdp.SDP) string {
				w := &sdp.SDP{Addr: ip.String(), Origin: sdp.Origin{User: s.Origin.User, ID: s.Origin.ID, Version: s.Origin.Version, Addr: ip.String()},
					Session: s.Session, Time: s.Time, Ptime: s.Ptime, Audio: &sdp.Media{Proto: "RTP/AVP", Port: uint16(port), Codecs: keep}}
				return dump(w)
			}
			x.Eq(dump(s), want(s), "offer")
			x.Eq(fmt.Sprint(sdp.ULAWCodec, sdp.DTMFCodec, sdp.Opus), "{0 PCMU 8000  } {101 telephone-event 8000  0-16} {111 opus 48000 2 }", "codecs to offer")
			x.CoverH("distinct", mc.Hash(want(s)))
			if s.Origin.ID == "" || s.Origin.ID == t.Origin.ID {
				x.Violate("origin ID not fresh", "%q %q", s.Origin.ID, t.Origin.ID)
			}
			x.Eq(s.Origin.Version, s.Origin.ID, "origin version")
			if len(keep) > 0 {
				back(x, s, "offer")
			}
			d := dump(s)
			for i := range cs {
				cs[i] = sdp.Codec{PT: 77, Name: "overwritten"}
			}
			a.IP, a.Port = net.IPv4(6, 6, 6, 6), 6
			x.Eq(dump(s), d, "offer shares the caller's data")
			for i := range s.Audio.Codecs {
				s.Audio.Codecs[i].Name = "changed"
				x.Eq(t.Audio.Codecs[i].Name, keep[i].Name, "two offers share codecs")
			}
			if len(keep) > 0 {
				s.Audio.Codecs = append(s.Audio.Codecs[:1], sdp.Codec{})
				x.Eq(fmt.Sprint(len(cs)), fmt.Sprint(len(keep)), "caller's list")
			}
			if c := x.Safe(func() {
				var n *sdp.SDP
				if n.String() != "" || n.Data() != nil {
					x.Violate("nil description", "prints something")
				}
				if s.ContentType() != "application/sdp" {
					x.Violate("content type", "%q", s.ContentType())
				}
			}); c != "" {
				x.Violate("nil description", "%s", c)
			}
		}})
	mc.Add(&mc.Suite{Prop: "C09", Name: "long", Bound: "0..256 codecs, attributes and other lines, and values of up to 3000 bytes",
		N: func() int64 { return 257 },
		Case: func(x *mc.X, i int64) {
			seedRandom()
			s := &sdp.SDP{Addr: "::1", Origin: sdp.Origin{ID: "1", Addr: "::2"}, Audio: &sdp.Media{Port: 5, Codecs: []sdp.Codec{}}}
			for j := int64(0); j < i; j++ {
				s.Audio.Codecs = append(s.Audio.Codecs, sdp.Codec{PT: uint8(255 - j), Name: fmt.Sprint("n", j), Rate: int(j), Fmtp: strings.Repeat("f", int(j))})
			}
			if i == 0 {
				s.Audio.Codecs = append(s.Audio.Codecs, sdp.ULAWCodec)
			}
			back(x, s, "codecs")
			s.Video = &sdp.Media{Port: 6, Codecs: s.Audio.Codecs[:min(len(s.Audio.Codecs), 20)]}
			s.Audio = nil
			for j := int64(0); j < i; j++ {
				s.Attrs = append(s.Attrs, [2]string{fmt.Sprint("n", j), strings.Repeat("v", int(j)*10)})
				s.Other = append(s.Other, [2]string{"x", fmt.Sprint("n", j)})
			}
			back(x, s, "attributes")
		}})
}
