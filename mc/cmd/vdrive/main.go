// Command vdrive decides one property: it copies the code under test with its
// network and random sources replaced, builds the harness against the copy,
// explores with several worker processes, confirms what they report and writes
// the evidence.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc/mc"
)

var (
	root  = flag.String("root", "/verif", "verification directory")
	repo  = flag.String("repo", "/repo", "code under test")
	tier  = flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	rep   = flag.String("replay", "", "replay this file")
	suite = flag.String("suite", "", "only suites with this prefix")
	nwork = flag.Int("n", 8, "worker processes")
	budg  = flag.Float64("budget", 0, "seconds to explore")
	setup = flag.Bool("setup", false, "only build")
	manif = flag.Bool("manifest", false, "print MANIFEST.json")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vdrive: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	if *manif {
		manifest()
		return
	}
	work := filepath.Join(*root, ".work")
	os.MkdirAll(work, 0755)
	lk, err := os.OpenFile(filepath.Join(work, "lock"), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		die("%v", err)
	}
	syscall.Flock(int(lk.Fd()), syscall.LOCK_EX)
	t0 := time.Now()
	refresh(filepath.Join(work, "sut", "gosip"), true)
	if *setup {
		done := map[string]bool{}
		for _, p := range props {
			if !done[p.area] {
				done[p.area] = true
				build(work, p.area)
				if p.race {
					buildRace(work, p.area)
				}
			}
		}
		return
	}
	id := flag.Arg(0)
	p := find(id)
	if p == nil {
		die("no check for property %q", id)
	}
	bin := build(work, p.area)
	if p.race {
		buildRace(work, p.area)
	}
	built := time.Since(t0).Seconds()
	run := filepath.Join(work, "run-"+id)
	os.RemoveAll(run)
	os.MkdirAll(run, 0755)
	// A private copy: a later build must not change what is running.
	own := filepath.Join(run, "h.test")
	if b, err := os.ReadFile(bin); err != nil || os.WriteFile(own, b, 0755) != nil {
		die("cannot copy %s", bin)
	}
	if p.race {
		r := filepath.Join(run, "race.test")
		if b, err := os.ReadFile(filepath.Join(work, "bin", p.area+"-race.test")); err != nil || os.WriteFile(r, b, 0755) != nil {
			die("cannot copy the program with the race monitor")
		}
		os.Setenv("VX_RACE", r)
	}
	syscall.Flock(int(lk.Fd()), syscall.LOCK_UN)
	if *rep != "" {
		os.Exit(replay(own, run, id, *rep))
	}
	os.Exit(explore(p, own, run, t0, built))
}

var areas = []string{"sip", "sdp", "rtp", "dsp", "dialog", "util"}

// refresh copies the library packages, replacing imports whose behaviour the
// explorer has to control.
var oldGo = regexp.MustCompile(`(?m)^go 1\.(\d|1[0-7])(\.\d+)?\s*\n`)

func refresh(dst string, selects bool) {
	swap := map[string]string{`"net"`: `net "verif/mc/shim/vnet"`, `"math/rand"`: `rand "verif/mc/shim/vrand"`}
	want := map[string][]byte{}
	err := filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if d.IsDir() {
			top := strings.Split(rel, "/")[0]
			if rel != "." && (strings.HasPrefix(top, ".") || top == "example" || top == "fone" || top == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		ext := filepath.Ext(p)
		if strings.HasSuffix(p, "_test.go") || (ext != ".go" && ext != ".s" && ext != ".h" && rel != "go.mod" && rel != "go.sum") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if ext == ".go" {
			b = rewrite(p, b, swap, selects)
		}
		if rel == "go.mod" && selects {
			b = oldGo.ReplaceAll(b, []byte("go 1.18\n")) // the replaced selects need generics
		}
		want[rel] = b
		return nil
	})
	if err != nil {
		die("copying %s: %v", *repo, err)
	}
	filepath.WalkDir(dst, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			rel, _ := filepath.Rel(dst, p)
			if _, ok := want[rel]; !ok {
				os.Remove(p)
			}
		}
		return nil
	})
	for rel, b := range want {
		f := filepath.Join(dst, rel)
		if old, err := os.ReadFile(f); err == nil && bytes.Equal(old, b) {
			continue
		}
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := os.WriteFile(f, b, 0644); err != nil {
			die("%v", err)
		}
	}
}

func rewrite(name string, b []byte, swap map[string]string, selects bool) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.SkipObjectResolution)
	if err != nil {
		return b // the compiler will say what is wrong
	}
	type edit struct {
		s, e int
		to   string
	}
	var edits []edit
	put := func(s, e token.Pos, to string) {
		edits = append(edits, edit{fset.Position(s).Offset, fset.Position(e).Offset, to})
	}
	text := func(n ast.Node) string {
		return string(b[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	for _, im := range f.Imports {
		to, ok := swap[im.Path.Value]
		if !ok {
			continue
		}
		if im.Name != nil { // keep the file's own name for it
			to = to[strings.Index(to, " ")+1:]
		}
		put(im.Path.Pos(), im.Path.End(), to)
	}
	// Selects without default choose among what is ready: let the explorer
	// choose. A labelled select, or one with another one in its case
	// expressions, stays as it is.
	labelled := map[ast.Node]bool{}
	n := 0
	ast.Inspect(f, func(nd ast.Node) bool {
		if l, ok := nd.(*ast.LabeledStmt); ok {
			labelled[l.Stmt] = true
		}
		sel, ok := nd.(*ast.SelectStmt)
		if !ok || !selects || labelled[nd] || len(sel.Body.List) < 2 {
			return true
		}
		n++
		pre := "{ "
		var es []edit
		var args []string
		for i, st := range sel.Body.List {
			cc := st.(*ast.CommClause)
			v := fmt.Sprintf("vsel%d_%d", n, i)
			args = append(args, v)
			head := fmt.Sprintf("case %d:", i)
			recv := func(x ast.Expr) bool {
				for {
					p, ok := x.(*ast.ParenExpr)
					if !ok {
						break
					}
					x = p.X
				}
				u, ok := x.(*ast.UnaryExpr)
				if !ok || u.Op != token.ARROW {
					return false
				}
				pre += v + " := vsel.R(" + text(u.X) + "); "
				return true
			}
			switch c := cc.Comm.(type) {
			case nil:
				return true // has a default
			case *ast.SendStmt:
				pre += v + " := vsel.S(" + text(c.Chan) + ", " + text(c.Value) + "); "
			case *ast.ExprStmt:
				if !recv(c.X) {
					return true
				}
			case *ast.AssignStmt:
				if len(c.Rhs) != 1 || !recv(c.Rhs[0]) {
					return true
				}
				head += " " + text(c.Lhs[0])
				if len(c.Lhs) == 2 {
					head += ", " + text(c.Lhs[1])
				}
				head += " " + c.Tok.String() + " " + v + ".V"
				if len(c.Lhs) == 2 {
					head += ", " + v + ".OK"
				}
				head += ";"
			default:
				return true
			}
			es = append(es, edit{fset.Position(cc.Pos()).Offset, fset.Position(cc.Colon).Offset + 1, head})
		}
		kw := fset.Position(sel.Select).Offset
		edits = append(edits, edit{kw, kw + len("select"), pre + "switch vsel.Pick(" + strings.Join(args, ", ") + ")"})
		edits = append(edits, es...)
		end := fset.Position(sel.End()).Offset
		edits = append(edits, edit{end - 1, end, "default: panic(\"no such case\") } }"})
		return true
	})
	if n > 0 {
		e := fset.Position(f.Name.End()).Offset
		edits = append(edits, edit{e, e, "; import vsel \"verif/mc/shim/vsel\""})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].s > edits[j].s })
	o := append([]byte{}, b...)
	for _, e := range edits {
		o = append(append(append([]byte{}, o[:e.s]...), e.to...), o[e.e:]...)
	}
	return o
}

func goenv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GOOS", "GOARCH", "GOEXPERIMENT", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

func build(work, area string) string {
	bin := filepath.Join(work, "bin", area+".test")
	os.MkdirAll(filepath.Dir(bin), 0755)
	c := exec.Command("go", "test", "-c", "-vet=off", "-o", bin, "./h/"+area)
	c.Dir = filepath.Join(*root, "mc")
	c.Env = goenv()
	out, err := c.CombinedOutput()
	if err != nil { // perhaps only the replaced selects are in the way
		refresh(filepath.Join(work, "sut", "gosip"), false)
		c = exec.Command(c.Args[0], c.Args[1:]...)
		c.Dir = filepath.Join(*root, "mc")
		c.Env = goenv()
		out, err = c.CombinedOutput()
	}
	if err != nil {
		die("building the %s harness against %s: %v\n%s", area, *repo, err, out)
	}
	return bin
}

// buildRace builds the harness with the race monitor, which needs cgo.
func buildRace(work, area string) {
	c := exec.Command("go", "test", "-c", "-race", "-vet=off", "-o", filepath.Join(work, "bin", area+"-race.test"), "./h/"+area)
	c.Dir = filepath.Join(*root, "mc")
	c.Env = append(goenv(), "CGO_ENABLED=1")
	if out, err := c.CombinedOutput(); err != nil {
		die("building the %s harness with the race monitor against %s: %v\n%s", area, *repo, err, out)
	}
}

type worker struct {
	i      int
	out    string
	stderr string
	exit   error
}

func start(bin, run, id string, name string, limit time.Duration, env ...string) worker {
	w := worker{out: filepath.Join(run, name+".json")}
	os.Remove(w.out)
	c := exec.Command(bin, "-test.run=^TestVerif$", "-test.timeout=0")
	c.Dir = run
	c.Env = append(os.Environ(), "VX_PROP="+id, "VX_OUT="+w.out, "VX_JOURNAL="+filepath.Join(run, name+".j"),
		"VX_ROOT="+*root, "VERIF_TIER="+*tier, "GOMAXPROCS=1", "GOTRACEBACK=all", "GODEBUG=")
	c.Env = append(c.Env, env...)
	ef, _ := os.Create(filepath.Join(run, name+".err"))
	c.Stderr = ef
	c.Stdout = ef
	if os.Getenv("VX_SHOW") != "" {
		c.Stdout = os.Stdout
	}
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	tm := time.AfterFunc(limit, func() { c.Process.Signal(syscall.SIGKILL) })
	w.exit = c.Wait()
	tm.Stop()
	ef.Close()
	b, _ := os.ReadFile(ef.Name())
	w.stderr = string(b)
	return w
}

func load(f string) *mc.Result {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	r := &mc.Result{}
	if json.Unmarshal(b, r) != nil {
		return nil
	}
	return r
}

func reason(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "VX-HANG") {
			return "hang"
		}
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG") {
			if i := strings.Index(l, " [recovered"); i > 0 {
				l = l[:i]
			}
			return "crash: " + l
		}
	}
	return "crash"
}

func fail(v *mc.Violation, w worker) bool {
	r := load(w.out)
	if r != nil && len(r.Violations) > 0 {
		for _, x := range r.Violations {
			if x.Key == v.Key {
				return true
			}
		}
		return v.Key == ""
	}
	return (r == nil || !r.Done) && w.exit != nil && strings.Contains(v.Key, ": "+reason(w.stderr))
}

// confirm re-executes a violation in fresh processes.
func confirm(v *mc.Violation, bin, run, id string, k int) bool {
	b, _ := json.MarshalIndent(v, "", " ")
	f := filepath.Join(run, fmt.Sprintf("v%d.replay", k))
	os.WriteFile(f, b, 0644)
	w := start(bin, run, id, fmt.Sprintf("c%d", k), 200*time.Second, "VX_REPLAY="+f, "VX_TIMES=20", "VX_HANG=30")
	if fail(v, w) {
		return true
	}
	// It may need what the same process executed before.
	w = start(bin, run, id, fmt.Sprintf("h%d", k), 300*time.Second, fmt.Sprintf("VX_SHARD=%d/%d", v.Shard, v.Shards), "VX_UPTO="+strconv.FormatInt(v.Exec, 10), "VX_BUDGET=250", "VX_SUITE="+*suite)
	if fail(v, w) {
		v.History = true
		return true
	}
	return false
}

type known struct{ prop, key, what string }

func knowns() (ks []known) {
	b, _ := os.ReadFile(filepath.Join(*root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), "\t", 3)
		if len(f) == 3 {
			ks = append(ks, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return
}

func explore(p *prop, bin, run string, t0 time.Time, built float64) int {
	id := p.id
	budget := *budg
	if budget == 0 {
		budget = 240
		if *tier == "thorough" {
			budget = 3000
		}
	}
	ws := make([]worker, *nwork)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ws[i] = start(bin, run, id, fmt.Sprintf("w%d", i), time.Duration(budget+150)*time.Second,
				fmt.Sprintf("VX_SHARD=%d/%d", i, *nwork), fmt.Sprintf("VX_BUDGET=%g", budget), "VX_SUITE="+*suite)
			ws[i].i = i
		}()
	}
	wg.Wait()
	var all []*mc.Violation
	hits := map[string]int{}
	byName := map[string]*mc.SuiteResult{}
	var order []string
	var trans, checks int64
	covers := map[string]map[uint64]struct{}{}
	var notes []string
	complete := true
	for _, w := range ws {
		r := load(w.out)
		if r == nil || !r.Done {
			complete = false
			o := filepath.Join(run, fmt.Sprintf("j%d.json", w.i))
			c := exec.Command(bin, "-test.run=^TestVerif$")
			c.Env = append(os.Environ(), "VX_PROP="+id, "VX_OUT="+o, "VX_LISTJ="+filepath.Join(run, fmt.Sprintf("w%d.j", w.i)), fmt.Sprintf("VX_SHARD=%d/%d", w.i, *nwork), "VERIF_TIER="+*tier)
			c.Run()
			b, _ := os.ReadFile(o)
			v := &mc.Violation{}
			if json.Unmarshal(b, v) == nil && v.Suite != "" {
				v.Key = v.Suite + ": " + reason(w.stderr)
				v.Msg = tail(w.stderr, 6000)
				all = append(all, v)
			} else {
				notes = append(notes, fmt.Sprintf("worker %d ended (%v) without a result: %s", w.i, w.exit, tail(w.stderr, 500)))
			}
		}
		if r == nil {
			continue
		}
		trans += r.Transitions
		checks += r.Checks
		all = append(all, r.Violations...)
		for k, n := range r.Hits {
			hits[k] += n
		}
		for _, s := range r.Suites {
			t := byName[s.Name]
			if t == nil {
				c := *s
				if c.Covered == nil {
					c.Covered = map[string]int64{}
				}
				byName[s.Name] = &c
				order = append(order, s.Name)
				continue
			}
			t.Executions += s.Executions
			t.Units += s.Units
			t.Diverged += s.Diverged
			t.Exhaustive = t.Exhaustive && s.Exhaustive
			t.Wall = max(t.Wall, s.Wall)
			for k, n := range s.Covered {
				t.Covered[k] = max(t.Covered[k], n)
			}
		}
		fs, _ := filepath.Glob(w.out + ".cover.*")
		for _, f := range fs {
			k := f[strings.LastIndex(f, ".")+1:]
			b, _ := os.ReadFile(f)
			m := covers[k]
			if m == nil {
				m = map[uint64]struct{}{}
				covers[k] = m
			}
			for len(b) >= 8 {
				m[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
	}
	exh := complete
	var execs int64
	var samples []string
	var sl []any
	for _, n := range order {
		s := byName[n]
		exh = exh && s.Exhaustive
		execs += s.Executions
		if len(samples) < 12 {
			for _, x := range s.Samples[:min(len(s.Samples), 2)] {
				samples = append(samples, n+": "+x)
			}
		}
		sl = append(sl, map[string]any{"name": s.Name, "bound": s.Bound, "executions": s.Executions, "units": s.Units, "exhaustive": s.Exhaustive, "diverged": s.Diverged, "wall_s": round(s.Wall)})
	}
	// Confirm and classify, one per key; simplest first.
	sort.SliceStable(all, func(i, j int) bool { return len(all[i].Choices) < len(all[j].Choices) })
	seen := map[string]bool{}
	ks := knowns()
	var bad []*mc.Violation
	var knownHit []known
	for _, v := range all {
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		isKnown := false
		for _, k := range ks {
			if k.prop == id && k.key == v.Key {
				isKnown = true
				knownHit = append(knownHit, k)
			}
		}
		if isKnown || len(bad) >= 5 {
			continue
		}
		if confirm(v, bin, run, id, len(seen)) {
			bad = append(bad, v)
		} else {
			notes = append(notes, "not reproducible, not reported: "+v.Key)
			os.WriteFile(filepath.Join(run, fmt.Sprintf("unconfirmed%d.txt", len(seen))), []byte(v.Msg+"\n"+strings.Join(v.Trace, "\n")), 0644)
		}
		if len(seen) > 12 && len(bad) > 0 {
			break
		}
	}
	cov := map[string]any{"exhaustive": exh, "suites": sl, "samples": samples, "workers": *nwork, "executions": execs, "oracle_comparisons": checks}
	for k, m := range covers {
		cov["distinct_"+k] = len(m)
	}
	if p.level == "model_checking" {
		cov["states"] = len(covers["state"])
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = execs
	} else {
		cov["evaluations"] = max(execs, checks)
		cov["distinct_nontrivial"] = len(covers["distinct"])
		cov["rule"] = p.rule
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": id, "tier": *tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": p.assume, "wall_s": round(time.Since(t0).Seconds()), "build_s": round(built), "violations": len(bad), "known_findings_seen": len(knownHit)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*root, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d comparisons, exhaustive=%v, built %.1fs, total %.1fs\n", id, *tier, execs, trans, checks, exh, built, time.Since(t0).Seconds())
	for _, n := range order {
		s := byName[n]
		fmt.Printf("  %-28s %9d executions %7d units exhaustive=%v diverged=%d %.1fs %v\n", n, s.Executions, s.Units, s.Exhaustive, s.Diverged, s.Wall, s.Covered)
	}
	for k, m := range covers {
		fmt.Printf("  distinct %s: %d\n", k, len(m))
	}
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
	}
	if len(bad) == 0 {
		for i := 0; i < 3 && os.Getenv("VX_KEEP") == ""; i++ {
			if os.RemoveAll(run) == nil {
				break
			}
		}
		return 0
	}
	os.MkdirAll(filepath.Join(*root, "replays"), 0755)
	for i, v := range bad {
		f := filepath.Join(*root, "replays", fmt.Sprintf("%s-%d.json", id, i))
		v.Binary = p.area
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		fmt.Printf("  %s (%d executions)\n", v.Key, hits[v.Key])
		for _, l := range strings.Split(tail2(v.Msg, 1500), "\n") {
			fmt.Println("    " + l)
		}
	}
	return 1
}

func replay(bin, run, id, f string) int {
	f, _ = filepath.Abs(f)
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	v := &mc.Violation{}
	if err := json.Unmarshal(b, v); err != nil {
		die("%v", err)
	}
	os.Setenv("VX_SHOW", "1")
	var w worker
	if v.History {
		w = start(bin, run, id, "r", 600*time.Second, fmt.Sprintf("VX_SHARD=%d/%d", v.Shard, v.Shards), "VX_UPTO="+strconv.FormatInt(v.Exec, 10))
	} else {
		w = start(bin, run, id, "r", 300*time.Second, "VX_REPLAY="+f, "VX_TIMES=1")
	}
	fmt.Print(w.stderr)
	if fail(v, w) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		return 1
	}
	fmt.Println("does not fail")
	return 0
}

func tail(s string, n int) string {
	if i := strings.Index(s, "panic:"); i > 0 && len(s)-i > n {
		return s[i : i+n]
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func find(id string) *prop {
	for i := range props {
		if props[i].id == id {
			return &props[i]
		}
	}
	return nil
}

func manifest() {
	var checks []any
	have := map[string]bool{}
	for _, p := range props {
		have[p.id] = true
		checks = append(checks, map[string]any{
			"property": p.id, "quick_cmd": "./run.sh " + p.id, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p.id,
			"evidence_file": "evidence/" + p.id + ".json", "technique": p.technique, "level": p.level, "level_note": p.note})
	}
	var na []any
	b, _ := os.ReadFile(filepath.Join(*root, "properties.jsonl"))
	for _, l := range strings.Split(string(b), "\n") {
		var q struct{ Id string }
		if json.Unmarshal([]byte(l), &q) == nil && q.Id != "" && !have[q.Id] {
			na = append(na, map[string]any{"property": q.Id, "reason": "check not built yet"})
		}
	}
	m := map[string]any{"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
		"notes": "No hooks in /repo: the checks build a copy of the library packages in which the imports of net and math/rand are replaced by in-memory stand-ins. Known findings and fixes: known_findings.txt."}
	if na == nil {
		m["not_applicable"] = []any{}
	}
	o, _ := json.MarshalIndent(m, "", "  ")
	fmt.Println(string(o))
}
