// Package sdph checks C08 and C09: SDP descriptions.
package sdph

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/jart/gosip/sdp"
)

func dumpCodec(c sdp.Codec) string {
	return fmt.Sprintf("%d %q %d %q %q", c.PT, c.Name, c.Rate, c.Param, c.Fmtp)
}

func dumpMedia(m *sdp.Media) string {
	if m == nil {
		return "none"
	}
	s := fmt.Sprintf("port=%d proto=%q", m.Port, m.Proto)
	for _, c := range m.Codecs {
		s += " [" + dumpCodec(c) + "]"
	}
	return s
}

func dumpPairs(p [][2]string) string {
	s := ""
	for _, a := range p {
		s += fmt.Sprintf(" %q=%q", a[0], a[1])
	}
	return s
}

func dump(s *sdp.SDP) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("o=%q/%q/%q/%q c=%q s=%q t=%q ptime=%d so=%v ro=%v\naudio %s\nvideo %s\nattrs%s\nother%s",
		s.Origin.User, s.Origin.ID, s.Origin.Version, s.Origin.Addr, s.Addr, s.Session, s.Time, s.Ptime, s.SendOnly, s.RecvOnly,
		dumpMedia(s.Audio), dumpMedia(s.Video), dumpPairs(s.Attrs), dumpPairs(s.Other))
}

// iana is the table of RFC 3551 and the IANA registry, with the encoding names,
// clock rates and channels the library knows.
var iana = map[uint8]sdp.Codec{
	0: {Name: "PCMU", Rate: 8000}, 3: {Name: "GSM", Rate: 8000}, 4: {Name: "G723", Rate: 8000},
	5: {Name: "DVI4", Rate: 8000}, 6: {Name: "DVI4", Rate: 16000}, 7: {Name: "LPC", Rate: 8000},
	8: {Name: "PCMA", Rate: 8000}, 9: {Name: "G722", Rate: 8000}, 10: {Name: "L16", Rate: 44100, Param: "2"},
	11: {Name: "L16", Rate: 44100}, 12: {Name: "QCELP", Rate: 8000}, 13: {Name: "CN", Rate: 8000},
	14: {Name: "MPA", Rate: 90000}, 15: {Name: "G728", Rate: 8000}, 16: {Name: "DVI4", Rate: 11025},
	17: {Name: "DVI4", Rate: 22050}, 18: {Name: "G729", Rate: 8000}, 25: {Name: "CelB", Rate: 90000},
	26: {Name: "JPEG", Rate: 90000}, 28: {Name: "nv", Rate: 90000}, 31: {Name: "H261", Rate: 90000},
	32: {Name: "MPV", Rate: 90000}, 33: {Name: "MP2T", Rate: 90000}, 34: {Name: "H263", Rate: 90000},
}

// number reads an unsigned decimal number of at most max. open is true for
// texts whose meaning the property leaves open (signs).
func number(s string, max int64) (n int64, ok, open bool) {
	if s != "" && (s[0] == '+' || s[0] == '-') {
		for _, c := range s[1:] {
			if c < '0' || c > '9' {
				return 0, false, false
			}
		}
		return 0, false, len(s) > 1
	}
	if s == "" {
		return 0, false, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false, false
		}
	}
	b, _ := new(big.Int).SetString(s, 10)
	if b.Cmp(big.NewInt(max)) > 0 {
		return 0, false, false
	}
	return b.Int64(), true, false
}

const maxInt = int64(^uint64(0) >> 1)

// expect is what an SDP text means.
type expect struct {
	v        *sdp.SDP
	session  bool // s= was given
	time     bool // t= was given
	bad      bool // must be refused
	why      string
	open     bool // not settled by the property
	openDirs bool
}

type attrLine struct {
	section int
	kind    string // rtpmap or fmtp
	pt      string
	val     string
}

// refParse reads an SDP text by its definition: one pass for the lines, and
// for each payload type a search in order of preference.
func refParse(s string) (e expect) {
	refuse := func(why string) expect { return expect{bad: true, why: why, open: e.open} }
	ls := strings.Split(s, "\r\n")
	if len(ls) < 2 || ls[0] != "v=0" {
		return refuse("version")
	}
	e.v = &sdp.SDP{}
	v := e.v
	type media struct {
		section int
		text    string
	}
	var sec int
	var aud, vid *media
	var maps []attrLine
	gotC, gotO := false, false
	var failure string
	for _, l := range ls[1:] {
		if len(l) < 3 || l[1] != '=' {
			continue
		}
		val := l[2:]
		switch l[0] {
		case 'm':
			sec++
			if t, ok := strings.CutPrefix(val, "audio "); ok {
				aud = &media{sec, t}
			} else if t, ok := strings.CutPrefix(val, "video "); ok {
				vid = &media{sec, t}
			}
		case 's':
			v.Session, e.session = val, true
		case 't':
			v.Time, e.time = val, true
		case 'c':
			if gotC {
				continue
			}
			gotC = true
			f := strings.Split(val, " ")
			if len(f) != 3 || f[0] != "IN" || f[1] != "IP4" && f[1] != "IP6" || strings.Contains(f[2], "/") {
				failure = "connection"
				continue
			}
			v.Addr = f[2]
		case 'o':
			f := strings.Split(val, " ")
			if len(f) != 6 || f[3] != "IN" || f[4] != "IP4" && f[4] != "IP6" || strings.Contains(f[5], "/") {
				failure = "origin"
				continue
			}
			gotO = true
			v.Origin = sdp.Origin{User: f[0], ID: f[1], Version: f[2], Addr: f[5]}
		case 'a':
			name, arg, colon := strings.Cut(val, ":")
			switch {
			case colon && (name == "rtpmap" || name == "fmtp"):
				pt, rest, sp := strings.Cut(arg, " ")
				if sp {
					maps = append(maps, attrLine{sec, name, pt, rest})
				}
			case colon && name == "ptime":
				n, ok, open := number(arg, maxInt)
				if open && arg[0] == '+' {
					e.open = true
				}
				if ok && n > 0 {
					v.Ptime = int(n)
				}
			case val == "sendrecv":
			case val == "sendonly":
				v.SendOnly = true
			case val == "recvonly":
				v.RecvOnly = true
			case name != "":
				v.Attrs = append(v.Attrs, [2]string{name, arg})
			}
		case '=':
		default:
			v.Other = append(v.Other, [2]string{l[:1], val})
		}
	}
	if failure != "" {
		return refuse(failure)
	}
	if !gotC || !gotO {
		return refuse("no connection or origin")
	}
	readM := func(m *media) (*sdp.Media, string) {
		if m == nil || m.text == "" {
			return nil, ""
		}
		f := strings.Split(m.text, " ")
		if len(f) < 3 {
			return nil, "media line"
		}
		port := f[0]
		if i := strings.IndexByte(port, '/'); i > 0 {
			port = port[:i]
		}
		n, ok, _ := number(port, 65535)
		if !ok {
			return nil, "media port"
		}
		r := &sdp.Media{Port: uint16(n), Proto: f[1]}
		for _, p := range f[2:] {
			n, ok, _ := number(p, 255)
			if !ok {
				return nil, "payload type"
			}
			r.Codecs = append(r.Codecs, sdp.Codec{PT: uint8(n)})
		}
		return r, ""
	}
	var why string
	if v.Audio, why = readM(aud); why != "" {
		return refuse(why)
	}
	if v.Video, why = readM(vid); why != "" {
		return refuse(why)
	}
	if v.Audio == nil && v.Video == nil {
		return refuse("no media")
	}
	// find returns the mapping that applies to payload type pt of section own.
	find := func(kind string, pt uint8, own int, other *media, om *sdp.Media) (string, bool) {
		key := fmt.Sprint(pt)
		for _, m := range maps {
			if m.kind == kind && m.pt == key && m.section == own {
				return m.val, true
			}
		}
		for _, m := range maps {
			if m.kind != kind || m.pt != key || m.section == own {
				continue
			}
			if other != nil && om != nil && m.section == other.section {
				theirs := false
				for _, c := range om.Codecs {
					theirs = theirs || c.PT == pt
				}
				if theirs {
					continue
				}
			}
			return m.val, true
		}
		return "", false
	}
	resolve := func(m *sdp.Media, own, other *media, om *sdp.Media) string {
		for i := range m.Codecs {
			c := &m.Codecs[i]
			if t, ok := find("rtpmap", c.PT, own.section, other, om); ok {
				f := strings.Split(t, "/")
				if len(f) < 2 {
					return "rtpmap"
				}
				n, ok, open := number(f[1], maxInt)
				if open {
					e.open = true
				}
				if !ok && !open {
					return "rtpmap rate"
				}
				c.Name, c.Rate = f[0], int(n)
				if len(f) > 2 {
					c.Param = f[2]
				}
			}
			if c.Name == "" {
				std, ok := iana[c.PT]
				if !ok {
					return "unknown payload type"
				}
				c.Name, c.Rate, c.Param = std.Name, std.Rate, std.Param
			}
			if t, ok := find("fmtp", c.PT, own.section, other, om); ok {
				c.Fmtp = t
			}
		}
		return ""
	}
	if v.Audio != nil {
		if why := resolve(v.Audio, aud, vid, v.Video); why != "" {
			return refuse(why)
		}
	}
	if v.Video != nil {
		if why := resolve(v.Video, vid, aud, v.Audio); why != "" {
			return refuse(why)
		}
	}
	return e
}
