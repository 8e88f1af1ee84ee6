// Package mc explores, exhaustively and without sampling, the executions of a
// harness: every nondeterministic decision is drawn with X.Choose, and the
// explorer re-executes the harness for every combination of answers
// (depth-first, stateless). Loop suites enumerate a counted space instead.
package mc

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Suite is one explored space of a property's check.
type Suite struct {
	Prop  string
	Name  string
	Bound string       // says what is enumerated, for the evidence
	Split int          // DFS: choices that make up a unit of work
	Run   func(x *X)   // DFS: one execution
	N     func() int64 // Loop: number of cases
	Case  func(x *X, i int64)
	Thor  bool // only in the thorough tier
}

var suites []*Suite

// Add registers a suite.
func Add(s *Suite) { suites = append(suites, s) }

// Violation is one failed execution.
type Violation struct {
	Prop    string   `json:"property"`
	Suite   string   `json:"suite"`
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	Choices []int    `json:"choices,omitempty"`
	Case    int64    `json:"case"`
	Trace   []string `json:"trace,omitempty"`
	Exec    int64    `json:"exec"` // position in the worker's run
	Shard   int      `json:"shard"`
	Shards  int      `json:"shards"`
	History bool     `json:"history,omitempty"` // needs the executions before it
	Binary  string   `json:"binary,omitempty"`
}

type point struct {
	n, c  int
	label string
}

// X is one execution.
type X struct {
	T      *testing.T
	e      *engine
	s      *Suite
	pts    []point
	prefix []int
	case_  int64
	trace  []string
	limit  int // abort when this many choices were drawn and unit is foreign
	mine   bool
	unit   bool
	cuts   []func()
}

type sentinel struct{ kind string }

type engine struct {
	t        *testing.T
	tier     string
	shard, n int
	deadline time.Time
	replay   *Violation
	upto     int64
	res      Result
	cover    map[string]map[uint64]struct{}
	viol     map[string]int
	journal  []byte
	beat     atomic.Int64
	execs    int64
}

// SuiteResult is the coverage of one suite.
type SuiteResult struct {
	Name       string           `json:"name"`
	Bound      string           `json:"bound"`
	Executions int64            `json:"executions"`
	Units      int64            `json:"units"`
	Exhaustive bool             `json:"exhaustive"`
	Diverged   int64            `json:"diverged"`
	Covered    map[string]int64 `json:"covered,omitempty"`
	Samples    []string         `json:"samples,omitempty"`
	Wall       float64          `json:"wall_s"`
}

// Result is what a worker reports.
type Result struct {
	Suites      []*SuiteResult `json:"suites"`
	Transitions int64          `json:"transitions"`
	Checks      int64          `json:"checks"`
	Violations  []*Violation   `json:"violations"`
	Hits        map[string]int `json:"hits"` // violation key -> executions
	Done        bool           `json:"done"`
}

// Thorough tells whether this is the thorough tier.
func (x *X) Thorough() bool { return x.e.tier == "thorough" }

var tierEnv = os.Getenv("VERIF_TIER")

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return tierEnv == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// Choose draws a decision in 0..n-1.
func (x *X) Choose(n int, label string) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%d, %s)", n, label))
	}
	i := len(x.pts)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			x.e.cur().Diverged++
			panic(sentinel{"diverged"})
		}
	}
	x.pts = append(x.pts, point{n, c, label})
	x.e.jot(i, c)
	if x.limit > 0 && len(x.pts) == x.limit && x.unit && !x.mine {
		panic(sentinel{"foreign"})
	}
	return c
}

// Bool draws a yes/no decision (no first).
func (x *X) Bool(label string) bool { return x.Choose(2, label) == 1 }

// OneOf draws one of the strings.
func (x *X) OneOf(label string, ss ...string) string { return ss[x.Choose(len(ss), label)] }

// Skip ends this execution without judging it (an input outside the space).
func (x *X) Skip() { panic(sentinel{"skip"}) }

// Logf adds a line to the execution's trace.
func (x *X) Logf(f string, a ...any) { x.trace = append(x.trace, fmt.Sprintf(f, a...)) }

// Step counts transitions.
func (x *X) Step(n int) { x.e.res.Transitions += int64(n) }

// Checked counts comparisons made against the oracle.
func (x *X) Checked(n int) { x.e.res.Checks += int64(n) }

// Cover records that a distinct thing was visited.
func (x *X) Cover(kind, key string) { x.CoverH(kind, Hash(key)) }

// CoverH is Cover for a hash.
func (x *X) CoverH(kind string, h uint64) {
	m := x.e.cover[kind]
	if m == nil {
		m = map[uint64]struct{}{}
		x.e.cover[kind] = m
	}
	m[h] = struct{}{}
}

// Hash is a 64-bit hash of s.
func Hash(s string) uint64 { h := fnv.New64a(); io.WriteString(h, s); return h.Sum64() }

// Violate reports that the property fails in this execution and ends it. key
// names what fails, stably enough to recognise the same finding again.
func (x *X) Violate(key, f string, a ...any) {
	x.report(key, fmt.Sprintf(f, a...))
	panic(sentinel{"violation"})
}

func (x *X) report(key, msg string) {
	e := x.e
	key = x.s.Name + ": " + key
	e.viol[key]++
	if e.viol[key] > 2 || len(e.res.Violations) > 60 {
		return
	}
	v := &Violation{Prop: x.s.Prop, Suite: x.s.Name, Key: key, Msg: msg, Case: x.case_, Exec: e.execs, Shard: e.shard, Shards: e.n}
	for _, p := range x.pts {
		v.Choices = append(v.Choices, p.c)
		v.Trace = append(v.Trace, fmt.Sprintf("%s=%d/%d", p.label, p.c, p.n))
	}
	v.Trace = append(v.Trace, x.trace...)
	e.res.Violations = append(e.res.Violations, v)
	e.flush(false)
}

// Check violates unless ok.
func (x *X) Check(ok bool, key, f string, a ...any) {
	x.e.res.Checks++
	if !ok {
		x.Violate(key, f, a...)
	}
}

// Eq violates unless the two strings are the same.
func (x *X) Eq(got, want, key string) {
	x.e.res.Checks++
	if got != want {
		x.Violate(key, "got  %q\nwant %q", got, want)
	}
}

// Safe runs f and returns what it panicked with ("" if it did not).
func (x *X) Safe(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sentinel); ok {
				panic(s)
			}
			crash = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return ""
}

// NoCrash runs f and violates when it panics.
func (x *X) NoCrash(key string, f func()) {
	x.e.res.Checks++
	if c := x.Safe(f); c != "" {
		x.Violate(key, "panic: %s", c)
	}
}

// OnCut has f run in the bubble should the execution be cut short there, so
// that nothing it started is left.
func (x *X) OnCut(f func()) { x.cuts = append(x.cuts, f) }

// Bubble runs body with its own clock and scheduler-visible quiescence; every
// goroutine it starts belongs to it. It returns true when goroutines were still
// blocked after body returned. A panic in body is passed on afterwards.
func (x *X) Bubble(body func()) (leaked bool) {
	var pan any
	var stack string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if strings.Contains(fmt.Sprint(r), "deadlock: main bubble goroutine has exited") {
					leaked = true
					return
				}
				if strings.Contains(fmt.Sprint(r), "deadlock: all goroutines in bubble are blocked") {
					leaked = true
					pan = fmt.Sprint(r)
					return
				}
				panic(r)
			}
		}()
		synctest.Test(x.T, func(t *testing.T) {
			defer func() {
				if r := recover(); r != nil {
					pan = r
					stack = string(debug.Stack())
					for i := len(x.cuts) - 1; i >= 0; i-- {
						x.Safe(x.cuts[i])
					}
					if x.cuts != nil {
						synctest.Wait()
					}
				}
			}()
			x.cuts = nil
			body()
		})
	}()
	if pan != nil {
		if s, ok := pan.(sentinel); ok {
			panic(s)
		}
		x.Violate("crash", "panic: %v\n%s", pan, stack)
	}
	return leaked
}

func (e *engine) cur() *SuiteResult { return e.res.Suites[len(e.res.Suites)-1] }

const jhead = 32

func (e *engine) jot(i, c int) {
	if e.journal == nil || jhead+4*i+4 > len(e.journal) {
		return
	}
	binary.LittleEndian.PutUint32(e.journal[jhead+4*i:], uint32(c))
	binary.LittleEndian.PutUint32(e.journal[24:], uint32(i+1))
}

func (e *engine) jstart(si int, c int64) {
	e.beat.Add(1)
	if e.journal == nil {
		return
	}
	binary.LittleEndian.PutUint32(e.journal[24:], 0)
	binary.LittleEndian.PutUint64(e.journal[0:], uint64(si))
	binary.LittleEndian.PutUint64(e.journal[8:], uint64(c))
	binary.LittleEndian.PutUint64(e.journal[16:], uint64(e.execs))
}

func readJournal(b []byte) (si int, c int64, exec int64, choices []int) {
	si = int(binary.LittleEndian.Uint64(b))
	c = int64(binary.LittleEndian.Uint64(b[8:]))
	exec = int64(binary.LittleEndian.Uint64(b[16:]))
	n := int(binary.LittleEndian.Uint32(b[24:]))
	for i := 0; i < n && jhead+4*i+4 <= len(b); i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(b[jhead+4*i:])))
	}
	return
}

// one runs one execution and tells how it ended.
func (e *engine) one(x *X) (end string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sentinel); ok {
				end = s.kind
				return
			}
			x.report("crash: "+firstLine(fmt.Sprint(r)), fmt.Sprintf("panic: %v\n%s", r, debug.Stack()))
			end = "violation"
		}
	}()
	if x.s.Run != nil {
		x.s.Run(x)
	} else {
		x.s.Case(x, x.case_)
	}
	return "done"
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (e *engine) late() bool { return time.Now().After(e.deadline) }

func (e *engine) sample(x *X, sr *SuiteResult) {
	if len(sr.Samples) >= 3 {
		return
	}
	var b bytes.Buffer
	for _, p := range x.pts {
		fmt.Fprintf(&b, "%s=%d ", p.label, p.c)
	}
	for _, l := range x.trace {
		fmt.Fprintf(&b, "| %s ", l)
	}
	if x.s.Run == nil {
		fmt.Fprintf(&b, "case %d", x.case_)
	}
	s := b.String()
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	sr.Samples = append(sr.Samples, s)
}

func (e *engine) dfs(si int, s *Suite, sr *SuiteResult) {
	var prefix []int
	var prev []int // prefix of the last unit
	unit := int64(-1)
	nextSample := int64(0)
	for {
		if e.late() || (e.upto > 0 && e.execs > e.upto) {
			sr.Exhaustive = false
			return
		}
		x := &X{T: e.t, e: e, s: s, prefix: prefix, limit: s.Split}
		fresh := prev == nil || len(prefix) < len(prev) || !same(prefix[:min(len(prefix), len(prev))], prev)
		if fresh {
			unit++
		}
		x.unit = true
		x.mine = e.n <= 1 || spread(unit)%int64(e.n) == int64(e.shard)
		if s.Split == 0 {
			x.mine = e.n <= 1 || int64(si)%int64(e.n) == int64(e.shard)
			if !x.mine {
				return
			}
		}
		e.execs++
		e.jstart(si, 0)
		end := e.one(x)
		if x.mine && end != "foreign" && end != "skip" {
			sr.Executions++
			if fresh {
				sr.Units++
			}
			if sr.Executions > nextSample {
				nextSample = nextSample*40 + 3
				e.sample(x, sr)
			}
		}
		if k := len(x.pts); s.Split > 0 && k >= s.Split {
			prev = prev[:0]
			for _, p := range x.pts[:s.Split] {
				prev = append(prev, p.c)
			}
		} else {
			prev = nil
		}
		if end == "diverged" {
			sr.Exhaustive = false
		}
		i := len(x.pts) - 1
		for i >= 0 && x.pts[i].c == x.pts[i].n-1 {
			i--
		}
		if i < 0 {
			return
		}
		prefix = make([]int, i+1)
		for j := 0; j <= i; j++ {
			prefix[j] = x.pts[j].c
		}
		prefix[i]++
	}
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *engine) loop(si int, s *Suite, sr *SuiteResult) {
	n := s.N()
	sr.Units = n
	if e.shard != 0 {
		sr.Units = 0
	}
	for i := int64(e.shard); i < n; i += int64(e.n) {
		if (i&255 == int64(e.shard)&255 || n < 4096) && e.late() || (e.upto > 0 && e.execs > e.upto) {
			sr.Exhaustive = false
			return
		}
		x := &X{T: e.t, e: e, s: s, case_: i}
		e.execs++
		e.jstart(si, i)
		if end := e.one(x); end != "skip" {
			sr.Executions++
			if sr.Executions == 1 || sr.Executions == 1000 {
				e.sample(x, sr)
			}
		}
	}
}

func (e *engine) flush(done bool) {
	out := os.Getenv("VX_OUT")
	if out == "" {
		return
	}
	e.res.Done = done
	e.res.Hits = e.viol
	b, _ := json.Marshal(&e.res)
	os.WriteFile(out+".tmp", b, 0644)
	os.Rename(out+".tmp", out)
	if done {
		for k, m := range e.cover {
			b := make([]byte, 0, 8*len(m))
			for h := range m {
				b = binary.LittleEndian.AppendUint64(b, h)
			}
			os.WriteFile(out+".cover."+k, b, 0644)
		}
	}
}

// Main is called by the test function of a harness package.
func Main(t *testing.T) {
	prop := os.Getenv("VX_PROP")
	if prop == "" {
		t.Skip("no property selected")
	}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(400)
	e := &engine{t: t, tier: tierEnv, n: 1, cover: map[string]map[uint64]struct{}{}, viol: map[string]int{}}
	if s := os.Getenv("VX_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &e.shard, &e.n)
	}
	e.upto, _ = strconv.ParseInt(os.Getenv("VX_UPTO"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VX_BUDGET"), 64)
	if secs == 0 {
		secs = 3600
	}
	e.deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	if j := os.Getenv("VX_JOURNAL"); j != "" {
		f, err := os.OpenFile(j, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
		if err == nil && f.Truncate(1<<16) == nil {
			e.journal, _ = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	var sel []*Suite
	for _, s := range suites {
		if s.Prop == prop && (!s.Thor || Thorough()) {
			sel = append(sel, s)
		}
	}
	if w := os.Getenv("VX_LISTJ"); w != "" { // explain a journal
		b, err := os.ReadFile(w)
		if err != nil {
			t.Fatal(err)
		}
		si, c, exec, ch := readJournal(b)
		v := &Violation{Prop: prop, Choices: ch, Case: c, Exec: exec, Shard: e.shard, Shards: e.n}
		if si < len(sel) {
			v.Suite = sel[si].Name
		}
		j, _ := json.Marshal(v)
		os.WriteFile(os.Getenv("VX_OUT"), j, 0644)
		return
	}
	go e.watch()
	if r := os.Getenv("VX_REPLAY"); r != "" {
		b, err := os.ReadFile(r)
		if err != nil {
			t.Fatal(err)
		}
		e.replay = &Violation{}
		if err := json.Unmarshal(b, e.replay); err != nil {
			t.Fatal(err)
		}
		times, _ := strconv.Atoi(os.Getenv("VX_TIMES"))
		if times == 0 {
			times = 1
		}
		for _, s := range sel {
			if s.Name != e.replay.Suite {
				continue
			}
			sr := &SuiteResult{Name: s.Name}
			e.res.Suites = append(e.res.Suites, sr)
			for i := 0; i < times; i++ {
				x := &X{T: t, e: e, s: s, prefix: e.replay.Choices, case_: e.replay.Case}
				e.execs++
				e.jstart(0, e.replay.Case)
				e.one(x)
				sr.Executions++
				if os.Getenv("VX_SHOW") != "" {
					for _, p := range x.pts {
						fmt.Printf("  choice %s = %d of %d\n", p.label, p.c, p.n)
					}
					for _, l := range x.trace {
						fmt.Printf("  %s\n", l)
					}
				}
			}
		}
		for _, v := range e.res.Violations {
			if os.Getenv("VX_SHOW") != "" {
				fmt.Printf("FAILS %s\n%s\n", v.Key, v.Msg)
			}
		}
		e.flush(true)
		return
	}
	only := os.Getenv("VX_SUITE")
	for si, s := range sel {
		if only != "" && !strings.HasPrefix(s.Name, only) {
			continue
		}
		sr := &SuiteResult{Name: s.Name, Bound: s.Bound, Exhaustive: true}
		e.res.Suites = append(e.res.Suites, sr)
		e.cover2(sr)
		t0 := time.Now()
		if s.Run != nil {
			e.dfs(si, s, sr)
		} else {
			e.loop(si, s, sr)
		}
		sr.Wall = time.Since(t0).Seconds()
		e.cover2(sr)
		if e.upto > 0 && e.execs > e.upto {
			break
		}
	}
	e.flush(true)
}

// cover2 notes how many distinct things a suite added (per worker).
func (e *engine) cover2(sr *SuiteResult) {
	if sr.Covered == nil {
		sr.Covered = map[string]int64{}
		for k, m := range e.cover {
			sr.Covered[k] = -int64(len(m))
		}
		return
	}
	for k, m := range e.cover {
		sr.Covered[k] += int64(len(m))
	}
}

// watch ends the process when one execution makes no progress for long.
func (e *engine) watch() {
	secs := 45
	if s, err := strconv.Atoi(os.Getenv("VX_HANG")); err == nil {
		secs = s
	}
	last, still := e.beat.Load(), 0
	for {
		time.Sleep(time.Second)
		if b := e.beat.Load(); b != last {
			last, still = b, 0
			continue
		}
		if still++; still >= secs && !e.res.Done {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			os.Stderr.WriteString("VX-HANG: no progress\n")
			os.Stderr.Write(buf)
			os.Exit(7)
		}
	}
}

// Names lists the properties that have suites, for the tools.
func Names() []string {
	m := map[string]bool{}
	for _, s := range suites {
		m[s.Prop] = true
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Testdata finds a committed data file.
func Testdata(name string) []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VX_ROOT"), "mc", "data", name))
	if err != nil {
		panic(err)
	}
	return b
}

// spread scatters numbers of units so that big ones don't meet on a worker.
func spread(unit int64) int64 {
	h := uint64(unit) + 0x9E3779B97F4A7C15
	h = (h ^ h>>30) * 0xBF58476D1CE4E5B9
	h = (h ^ h>>27) * 0x94D049BB133111EB
	return int64((h ^ h>>31) >> 8)
}
