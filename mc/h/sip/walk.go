package siph

import (
	"bytes"
	"errors"
	"fmt"
	"sync"

	"github.com/jart/gosip/sip"
)

// walks knows, for every state of the message machine, a shortest text that
// leads there and a shortest text that completes a message from there.
type walks struct {
	n      int
	prefix []string
	suffix []string
	ok     []bool
	states []int   // reachable states
	class  [][]int // per state: one representative symbol per distinct behaviour
}

var byteOrder = func() []int {
	var o []int
	in := map[int]bool{}
	add := func(c int) {
		if !in[c] {
			in[c] = true
			o = append(o, c)
		}
	}
	for _, c := range []byte("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
		add(int(c))
	}
	for c := 0; c < 256; c++ {
		add(c)
	}
	return o
}()

var getWalks = sync.OnceValue(func() *walks {
	d := msgDFA
	n := len(d.States)
	w := &walks{n: n, prefix: make([]string, n), suffix: make([]string, n), ok: make([]bool, n), class: make([][]int, n)}
	var toks []string
	for _, c := range byteOrder {
		toks = append(toks, string([]byte{byte(c)}))
	}
	toks = append(toks, "\r\n ", "\r\n\t")
	type edge struct {
		from int
		tok  string
	}
	rev := make([][]edge, n)
	var queue []int
	visit := func(p string) int {
		r := refMsg([]byte(p), nil)
		if r.kind != refIncomplete && r.kind != refOK {
			return -1
		}
		if r.kind == refOK {
			return -2
		}
		if !w.ok[r.cs] {
			w.ok[r.cs] = true
			w.prefix[r.cs] = p
			queue = append(queue, r.cs)
		}
		return r.cs
	}
	visit("A a:a")
	visit("")
	final := []edge{}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		w.states = append(w.states, s)
		for _, t := range toks {
			to := visit(w.prefix[s] + t)
			if to >= 0 {
				rev[to] = append(rev[to], edge{s, t})
			} else if to == -2 {
				final = append(final, edge{s, t})
			}
		}
	}
	done := make([]bool, n)
	var back []int
	for _, e := range final {
		if !done[e.from] {
			done[e.from] = true
			w.suffix[e.from] = e.tok
			back = append(back, e.from)
		}
	}
	for len(back) > 0 {
		s := back[0]
		back = back[1:]
		for _, e := range rev[s] {
			if !done[e.from] {
				done[e.from] = true
				w.suffix[e.from] = e.tok + w.suffix[s]
				back = append(back, e.from)
			}
		}
	}
	for _, s := range w.states {
		seen := map[[4]int16]bool{}
		for _, c := range byteOrder {
			k := [4]int16{d.next[s][c], d.act[s][c]}
			if d.cond[s][c] {
				k = [4]int16{d.next[s][256+c], d.act[s][256+c], d.next[s][512+c], d.act[s][512+c] + 1}
			}
			if !seen[k] {
				seen[k] = true
				w.class[s] = append(w.class[s], c)
			}
		}
	}
	return w
})

// usesL tells whether the text has the compact header name l, whose effect on
// three other fields is a known finding.
func usesL(data []byte) bool {
	b := bytes.ToLower(data)
	for i := 0; i+1 < len(b); i++ {
		if b[i] == 'l' && (i == 0 || b[i-1] == '\n') {
			for j := i + 1; j < len(b); j++ {
				if b[j] == ':' {
					return true
				}
				if b[j] != ' ' && b[j] != '\t' {
					break
				}
			}
		}
	}
	return false
}

func kindOf(m *sip.Msg, err error) (refKind, int) {
	var pe sip.MsgParseError
	var ie sip.MsgIncompleteError
	switch {
	case err == nil && m == nil:
		return refNil, 0
	case err == nil:
		return refOK, 0
	case errors.As(err, &pe):
		return refAt, pe.Offset
	case errors.As(err, &ie):
		return refIncomplete, 0
	}
	return refOther, 0
}

var kindName = []string{"accepted", "incomplete", "wrong at an offset", "refused", "nothing"}

func clip(b []byte) string {
	s := fmt.Sprintf("%q", b)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
