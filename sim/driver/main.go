// driver decides one property by seeded search over simulated runs.
//
//	driver check PROPERTY quick|thorough
//	driver replay FILE
//	driver selftest            determinism proof over a sample of seeds
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	verif = "/verif"
	repo  = "/repo"
	cpus  = runtime.NumCPU()
)

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verif = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repo = d
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		cpus = n
	}
	if cpus > 8 {
		cpus = 8
	}
	if len(os.Args) < 2 {
		die("usage: driver check PROPERTY quick|thorough | replay FILE | selftest")
	}
	switch os.Args[1] {
	case "build":
		w, err := buildWorker()
		if err != nil {
			die("build: %v", err)
		}
		fmt.Println(w)
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selftest":
		n := 200
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		os.Exit(selftest(n))
	default:
		die("unknown command %s", os.Args[1])
	}
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.Exit(2)
}

// ------------------------------------------------------------------ build

var instrumented = []string{
	"pokercompetition=yield", "pokercompetition/blind=yield", "pokercompetition/actor=yield",
	"timebank=gate", "syncsaga=gate", "pokertable=gate", "pokertable/open_game_manager=gate", "pokertable/seat_manager=gate",
	"pokerface=gate", "pokerface/regulator=gate",
}

const org = "github.com/weedbox/"

func sh(dir string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, b.String())
	}
	return nil
}

func hashTree(h io.Writer, root string, keep func(string) bool) error {
	return filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == ".build" {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.Mode().IsRegular() || !keep(p) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fmt.Fprintf(h, "%s %d\n", strings.TrimPrefix(p, root), len(b))
		h.Write(b)
		return nil
	})
}

// buildWorker instruments a copy of the current working tree and builds the
// simulation worker from it.
func buildWorker() (string, error) {
	h := sha256.New()
	src := func(p string) bool {
		b := filepath.Base(p)
		return strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") || b == "go.mod" || b == "go.sum" || strings.HasSuffix(b, ".json")
	}
	if err := hashTree(h, repo, src); err != nil {
		return "", err
	}
	if err := hashTree(h, filepath.Join(verif, "sim"), func(string) bool { return true }); err != nil {
		return "", err
	}
	id := hex.EncodeToString(h.Sum(nil))[:16]
	base := filepath.Join(verif, ".build")
	if err := os.MkdirAll(base, 0o755); err != nil {
		return "", err
	}
	lock, err := os.OpenFile(filepath.Join(base, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return "", err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return "", err
	}
	dir := filepath.Join(base, id)
	worker := filepath.Join(dir, "worker")
	if _, err := os.Stat(worker); err == nil {
		now := time.Now()
		os.Chtimes(dir, now, now)
		return worker, nil
	}
	// keep the disk small
	if es, err := os.ReadDir(base); err == nil {
		type old struct {
			p string
			t time.Time
		}
		var os_ []old
		for _, e := range es {
			if fi, err := e.Info(); err == nil && e.IsDir() {
				os_ = append(os_, old{filepath.Join(base, e.Name()), fi.ModTime()})
			}
		}
		sort.Slice(os_, func(i, j int) bool { return os_[i].t.After(os_[j].t) })
		for i, o := range os_ {
			if i >= 3 && strings.HasPrefix(o.p, base+"/") {
				os.RemoveAll(o.p)
			}
		}
	}
	tmp, err := os.MkdirTemp(base, "tmp")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(tmp)
	if err := sh(filepath.Join(verif, "sim/instr"), "go", "build", "-o", filepath.Join(tmp, "instr"), "."); err != nil {
		return "", err
	}
	args := []string{"-dir", repo, "-out", filepath.Join(tmp, "src"), "-sites", filepath.Join(tmp, "sites.txt")}
	for _, p := range instrumented {
		args = append(args, org+p)
	}
	if err := sh(tmp, filepath.Join(tmp, "instr"), args...); err != nil {
		return "", err
	}
	hd := filepath.Join(tmp, "h")
	if err := os.MkdirAll(hd, 0o755); err != nil {
		return "", err
	}
	gs, _ := filepath.Glob(filepath.Join(verif, "sim/harness/*.go"))
	for _, g := range gs {
		b, err := os.ReadFile(g)
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(hd, filepath.Base(g)), b, 0o644); err != nil {
			return "", err
		}
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	// the requirements of the tree under test
	var m strings.Builder
	m.WriteString("module verif/harness\n\ngo 1.25\n\n")
	in := false
	for _, l := range strings.Split(string(mod), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("):
			in = true
			m.WriteString("require (\n")
		case in && t == ")":
			in = false
			m.WriteString(")\n")
		case in || strings.HasPrefix(t, "require "):
			m.WriteString(l + "\n")
		}
	}
	m.WriteString("\nrequire (\n\tgithub.com/weedbox/pokercompetition v0.0.0\n\tverif/simrt v0.0.0\n)\n\nreplace (\n")
	for _, p := range []string{"pokercompetition", "pokerface", "pokertable", "timebank", "syncsaga"} {
		if _, err := os.Stat(filepath.Join(tmp, "src", org+p)); err == nil {
			fmt.Fprintf(&m, "\t%s%s => ../src/%s%s\n", org, p, org, p)
		}
	}
	fmt.Fprintf(&m, "\tverif/simrt => %s\n)\n", filepath.Join(verif, "sim/simrt"))
	if err := os.WriteFile(filepath.Join(hd, "go.mod"), []byte(m.String()), 0o644); err != nil {
		return "", err
	}
	if b, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(hd, "go.sum"), b, 0o644)
	}
	if err := sh(hd, "go", "test", "-c", "-o", filepath.Join(tmp, "worker"), "."); err != nil {
		return "", err
	}
	os.RemoveAll(filepath.Join(tmp, "instr"))
	if err := os.Rename(tmp, dir); err != nil {
		return "", err
	}
	return worker, nil
}

// ------------------------------------------------------------------ worker protocol

type violation struct {
	Prop, Key, Msg string
	AtMs           int64
}

type panicRec struct {
	Name, Value, Stack string
}

type stats struct {
	Steps, Yields, Decisions uint64
	Contended                uint64
	Edges                    int
}

type result struct {
	Viol      []violation
	Hash      uint64
	TraceHash uint64
	SimMs     int64
	Stats     json.RawMessage
	Faults    map[string]int
	Checks    map[string]int
	Probes    map[string]int
	States    []uint64
	Hands     int
	Settled   int
	Requests  int
	Reports   int
	Calls     int
	Exact     int
	Quiets    int
	Ended     int
	Lines     []string `json:",omitempty"`
	Panics    []panicRec
	Livelock  string
	Preempts  []uint64
	Stalls    map[uint64]int64
}

type answer struct {
	Seed    uint64
	Profile string
	Res     *result
	Sc      json.RawMessage
	Crash   string
	WallUs  int64
	Last    bool
}

type request struct {
	Profile string
	From    uint64
	To      uint64
	Budget  int
	Prop    string
	Sc      json.RawMessage `json:",omitempty"`
	Lines   bool
	Stop    int
	Known   []string
}

var errHung = errors.New("worker did not answer in time")

// ask runs one worker process over some requests.
func ask(worker string, qs []request, limit time.Duration) ([]answer, error) {
	d, err := os.MkdirTemp("", "verif-w")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	for _, q := range qs {
		if err := enc.Encode(q); err != nil {
			return nil, err
		}
	}
	fi, fo := filepath.Join(d, "in"), filepath.Join(d, "out")
	if err := os.WriteFile(fi, b.Bytes(), 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, worker, "-test.run", "^TestWorker$", "-test.timeout", "0")
	c.Dir = d
	c.Env = append(os.Environ(), "VERIF_IN="+fi, "VERIF_OUT="+fo, "GOMAXPROCS=1", "GOGC=200", "GODEBUG=asyncpreemptoff=1,randseednop=0")
	var eb tail
	c.Stdout, c.Stderr = &eb, &eb
	rerr := c.Run()
	if ctx.Err() != nil {
		rerr = errHung
	} else if rerr != nil {
		rerr = fmt.Errorf("worker: %v\n%s", rerr, eb.String())
	}
	var as []answer
	f, err := os.Open(fo)
	if err != nil {
		if rerr != nil {
			return nil, rerr
		}
		return nil, err
	}
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<20)
	for {
		l, err := r.ReadBytes('\n')
		if len(bytes.TrimSpace(l)) > 0 {
			var a answer
			if e := json.Unmarshal(l, &a); e == nil {
				as = append(as, a)
			}
		}
		if err != nil {
			break
		}
	}
	return as, rerr
}

// tail keeps the first part of what a worker prints.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 8000 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

// ------------------------------------------------------------------ known findings

type finding struct{ prop, key, what string }

func knownFindings() ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(p) != 3 || !strings.HasPrefix(p[0], "property=") || !strings.HasPrefix(p[1], "key=") {
			return nil, fmt.Errorf("known-findings.txt: bad line %q", l)
		}
		fs = append(fs, finding{strings.TrimPrefix(p[0], "property="), strings.TrimPrefix(p[1], "key="), p[2]})
	}
	return fs, nil
}

// ------------------------------------------------------------------ check

// plan: which workload profiles a property is searched with, and how many runs.
type plan struct {
	profile         string
	quick, thorough int
}

func plansFor(prop string) []plan {
	switch prop {
	case "C21", "C22":
		return []plan{{prop, 1200, 40000}}
	case "C18":
		return []plan{{prop, 3000, 80000}}
	}
	return []plan{{prop, 9000, 150000}}
}

// pick returns the violation of the property in a result, if any that counts.
func pick(prop string, r *result, known map[string]bool) *violation {
	if r == nil {
		return nil
	}
	for i, v := range r.Viol {
		if v.Prop == prop && !known[v.Prop+"/"+v.Key] {
			return &r.Viol[i]
		}
	}
	if len(r.Panics) > 0 {
		p := r.Panics[0]
		k := "engine-panic"
		if known[prop+"/"+k] {
			return nil
		}
		return &violation{Prop: prop, Key: k, Msg: "the engine panics: " + first(p.Value) + " in " + topFrame(p.Stack)}
	}
	if r.Livelock != "" {
		return &violation{Prop: prop, Key: "engine-livelock", Msg: "the engine spins without end: " + first(r.Livelock)}
	}
	return nil
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func topFrame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "weedbox/") && strings.HasPrefix(l, "github.com") {
			return first(l)
		}
	}
	return "?"
}

type total struct {
	mu                                sync.Mutex
	runs                              int
	simMs                             int64
	hands, settled, requests, reports int
	calls, exact, quiets, ended       int
	faults, checks, probes            map[string]int
	traces                            map[uint64]bool
	states                            map[uint64]bool
	distinct                          map[uint64]bool
	knownHits                         map[string]int
	other                             map[string]int
	runUs                             int64
	preempts                          int
	yields, decisions                 uint64
	samples                           []interface{}
}

func newTotal() *total {
	return &total{faults: map[string]int{}, checks: map[string]int{}, probes: map[string]int{}, traces: map[uint64]bool{}, states: map[uint64]bool{}, distinct: map[uint64]bool{}, knownHits: map[string]int{}, other: map[string]int{}}
}

func (t *total) add(prop string, a *answer, known map[string]bool) {
	r := a.Res
	if r == nil {
		return
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.runUs += a.WallUs
	t.simMs += r.SimMs
	t.hands += r.Hands
	t.settled += r.Settled
	t.requests += r.Requests
	t.reports += r.Reports
	t.calls += r.Calls
	t.exact += r.Exact
	t.quiets += r.Quiets
	t.ended += r.Ended
	t.preempts += len(r.Preempts)
	var st stats
	json.Unmarshal(r.Stats, &st)
	t.yields += st.Yields
	t.decisions += st.Decisions
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Checks {
		t.checks[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	t.traces[r.TraceHash] = true
	for _, s := range r.States {
		t.states[s] = true
	}
	if r.Checks[prop] > 0 && (r.Settled > 0 || r.Calls > 3) {
		t.distinct[r.Hash] = true
	}
	for _, v := range r.Viol {
		k := v.Prop + "/" + v.Key
		if known[k] {
			t.knownHits[k]++
		} else if v.Prop != prop {
			t.other[k]++
		}
	}
	if len(t.samples) < 3 && r.Checks[prop] > 0 {
		t.samples = append(t.samples, map[string]interface{}{"seed": a.Seed, "profile": a.Profile, "simulated_ms": r.SimMs, "hands": r.Hands, "client_calls": r.Calls, "faults": r.Faults, "checks_of_property": r.Checks[prop], "trace_hash": fmt.Sprintf("%016x", r.TraceHash)})
	}
}

type hitRec struct {
	a answer
	v violation
}

func verifSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 32)
	if err != nil {
		return 1
	}
	return n
}

func check(prop, tier string) int {
	t0 := time.Now()
	worker, err := buildWorker()
	if err != nil {
		fmt.Fprintf(os.Stderr, "driver: cannot build the simulation of the current tree: %v\n", err)
		return 2
	}
	buildS := time.Since(t0).Seconds()
	fs, err := knownFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	known := map[string]bool{}
	var knownL []string
	for _, f := range fs {
		known[f.prop+"/"+f.key] = true
		knownL = append(knownL, f.prop+"/"+f.key)
	}
	seed := verifSeed()
	wall := 300 * time.Second
	if tier == "thorough" {
		wall = 780 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_WALL")); err == nil && s > 0 {
		wall = time.Duration(s) * time.Second
	}
	tot := newTotal()
	var hit *hitRec
	var trouble error
	runsPlanned := 0
	s0 := time.Now()
	for _, pl := range plansFor(prop) {
		n := pl.quick
		if tier == "thorough" {
			n = pl.thorough
		}
		if k, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && k > 0 {
			n = k
		}
		runsPlanned += n
		h, err := search(worker, prop, pl.profile, seed*10_000_000, n, s0.Add(wall), known, knownL, tot)
		if err != nil {
			trouble = err
		}
		if h != nil {
			hit = h
			break
		}
	}
	searchS := time.Since(s0).Seconds()
	// determinism: a sample of the runs again, in fresh processes
	det, detBad := 0, 0
	if hit == nil && trouble == nil {
		det, detBad = again(worker, plansFor(prop)[0].profile, seed*10_000_000, 24)
	}
	var rep string
	var vmsg []map[string]interface{}
	code := 0
	if hit != nil {
		rep, err = report(worker, prop, hit, known)
		if err != nil {
			fmt.Fprintf(os.Stderr, "driver: %v\n", err)
			trouble = err
		} else {
			code = 1
			vmsg = append(vmsg, map[string]interface{}{"key": hit.v.Key, "message": hit.v.Msg, "seed": hit.a.Seed, "replay": rep})
		}
	}
	if trouble != nil && code == 0 {
		fmt.Fprintf(os.Stderr, "driver: %v\n", trouble)
		code = 2
	}
	evidence(prop, tier, seed, tot, runsPlanned, searchS, buildS, time.Since(t0).Seconds(), det, detBad, vmsg, fs)
	for _, f := range fs {
		if f.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; seen in %d of %d runs)\n", prop, f.what, f.key, tot.knownHits[prop+"/"+f.key], tot.runs)
		}
	}
	fmt.Printf("%s %s: %d runs, %.0f s simulated, %d checks of %s, %d distinct traces, %.1f s\n", prop, tier, tot.runs, float64(tot.simMs)/1000, tot.checks[prop], prop, len(tot.traces), time.Since(t0).Seconds())
	if code == 1 {
		fmt.Printf("%s: %s (seed %d)\n", hit.v.Key, hit.v.Msg, hit.a.Seed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep)
	}
	if code == 0 && tot.checks[prop] == 0 {
		fmt.Fprintf(os.Stderr, "driver: the property was never exercised\n")
		return 2
	}
	return code
}

// search runs n seeds of a profile on all cores; it returns the violating run
// with the lowest seed of the chunks it finished.
func search(worker, prop, profile string, base uint64, n int, deadline time.Time, known map[string]bool, knownL []string, tot *total) (*hitRec, error) {
	const chunk = 100
	type job struct{ from, to uint64 }
	var mu sync.Mutex
	next := base
	end := base + uint64(n)
	var best *hitRec
	var trouble error
	take := func() (job, bool) {
		mu.Lock()
		defer mu.Unlock()
		if next >= end || time.Now().After(deadline) || best != nil || trouble != nil {
			return job{}, false
		}
		j := job{next, min(next+chunk, end)}
		next = j.to
		return j, true
	}
	var wg sync.WaitGroup
	for i := 0; i < cpus; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j, ok := take()
				if !ok {
					return
				}
				q := request{Profile: profile, From: j.from, To: j.to, Prop: prop, Stop: 1, Known: knownL, Budget: 240000}
				as, err := ask(worker, []request{q}, 300*time.Second)
				last := uint64(j.from)
				got := false
				var h *hitRec
				for k := range as {
					a := &as[k]
					if a.Last && a.Res == nil {
						got = true
						continue
					}
					last = a.Seed + 1
					tot.add(prop, a, known)
					if a.Crash != "" && a.Res == nil {
						err = fmt.Errorf("seed %d: %s", a.Seed, first(a.Crash))
						continue
					}
					if v := pick(prop, a.Res, known); v != nil && h == nil {
						h = &hitRec{*a, *v}
					}
				}
				mu.Lock()
				if h != nil && (best == nil || h.a.Seed < best.a.Seed) {
					best = h
				}
				if h == nil && err != nil && trouble == nil {
					trouble = fmt.Errorf("profile %s near seed %d: %v", profile, last, err)
				}
				if h == nil && err == nil && !got && trouble == nil {
					trouble = fmt.Errorf("profile %s: a worker stopped near seed %d", profile, last)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if best != nil {
		return best, nil
	}
	return nil, trouble
}

// again repeats runs in fresh processes and compares the event logs.
func again(worker, profile string, base uint64, n int) (int, int) {
	var mu sync.Mutex
	ran, bad := 0, 0
	var wg sync.WaitGroup
	per := (n + 3) / 4
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			from := base + uint64(g*per)
			q := request{Profile: profile, From: from, To: from + uint64(per)}
			// the second process starts in the middle: runs must not depend on
			// what the process ran before
			q2 := q
			q2.From = from + uint64(per/2)
			a, e1 := ask(worker, []request{q}, 200*time.Second)
			b, e2 := ask(worker, []request{q2}, 200*time.Second)
			if e1 != nil || e2 != nil {
				return
			}
			hs := map[uint64]*result{}
			for i := range a {
				if a[i].Res != nil {
					hs[a[i].Seed] = a[i].Res
				}
			}
			mu.Lock()
			defer mu.Unlock()
			for i := range b {
				r := b[i].Res
				if r == nil || hs[b[i].Seed] == nil {
					continue
				}
				ran++
				if o := hs[b[i].Seed]; o.Hash != r.Hash || o.TraceHash != r.TraceHash {
					bad++
				}
			}
		}(g)
	}
	wg.Wait()
	return ran, bad
}

func evidence(prop, tier string, seed uint64, t *total, planned int, searchS, buildS, wallS float64, det, detBad int, viol []map[string]interface{}, fs []finding) {
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(t.runs) / searchS * 3600
	}
	kn := []string{}
	for _, f := range fs {
		if f.prop == prop {
			kn = append(kn, fmt.Sprintf("%s: %s (seen in %d runs)", f.key, f.what, t.knownHits[prop+"/"+f.key]))
		}
	}
	real, stub := components(prop)
	cov := map[string]interface{}{
		"evaluations":          t.runs,
		"distinct_nontrivial":  len(t.distinct),
		"rule":                 "one case is one simulated run, a pure function of one seed (scenario, client operations, faults, schedule); it counts as non-trivial when the property's oracle was evaluated in it and hands were settled or client calls made, and as distinct by the hash of its complete event log",
		"samples":              t.samples,
		"seed_from":            seed * 10_000_000,
		"seeds_per_hour":       int(perHour),
		"runs_planned":         planned,
		"simulated_hours":      float64(t.simMs) / 3.6e6,
		"oracle_evaluations":   t.checks[prop],
		"all_oracles":          t.checks,
		"probes":               t.probes,
		"faults_injected":      t.faults,
		"preemptions":          t.preempts,
		"scheduling_decisions": t.decisions,
		"distinct_event_logs":  len(t.traces),
		"distinct_states":      len(t.states),
		"state_measure":        "distinct abstract competition states (status, level, table and player statuses) at quiescent instants",
		"hands_settled":        t.settled,
		"table_requests":       t.requests,
		"table_reports":        t.reports,
		"client_calls":         t.calls,
		"exactly_decided":      t.exact,
		"quiescent_checks":     t.quiets,
		"competitions_ended":   t.ended,
		"determinism_reruns":   det,
		"determinism_diffs":    detBad,
		"real_components":      real,
		"stub_components":      stub,
		"build_s":              buildS,
		"search_s":             searchS,
		"known_findings":       kn,
		"other_rules_hit":      t.other,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wallS,
		"assumptions": []string{
			"seeded search: a quiet run is evidence over the sampled schedules and faults, not a proof",
			"the table service model mirrors the observable behaviour of pokertable v0.1.83 (DESIGN.md)",
		},
	}
	if viol != nil {
		ev["violations"] = len(viol)
		cov["violation_details"] = viol
	} else {
		ev["violations"] = 0
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func components(prop string) (real, stub []string) {
	if prop == "C21" || prop == "C22" {
		return []string{"pokercompetition manager and engine", "blind clock", "native table backend", "pokertable table engine", "pokerface game engine", "actors", "timebank", "syncsaga", "regulator"}, []string{"clock (synctest)", "scheduler (simrt)"}
	}
	return []string{"pokercompetition manager and engine", "blind clock", "pokerface regulator", "timebank"}, []string{"table service (model of pokertable)", "clients", "clock (synctest)", "scheduler (simrt)"}
}

// ------------------------------------------------------------------ report, minimise, replay

type replayFile struct {
	Property  string
	Key       string
	Message   string
	AtMs      int64
	Seed      uint64
	TraceHash string
	Hash      string
	Minimised bool
	Steps     string
	Trace     []string
	Scenario  json.RawMessage
}

func report(worker, prop string, h *hitRec, known map[string]bool) (string, error) {
	sc := h.a.Sc
	if len(sc) == 0 || string(sc) == "null" {
		return "", fmt.Errorf("seed %d violated %s but the worker sent no scenario", h.a.Seed, prop)
	}
	m := &minimiser{worker: worker, prop: prop, key: h.v.Key, known: known, deadline: time.Now().Add(75 * time.Second)}
	r := m.run(sc)
	if r == nil {
		r = m.run(sc)
	}
	if r == nil {
		return "", fmt.Errorf("seed %d: %s does not repeat from its scenario in a fresh process", h.a.Seed, h.v.Key)
	}
	small, steps := m.minimise(sc, r)
	// the final replay, twice, in fresh processes
	as, err := ask(worker, []request{{Sc: small, Prop: prop, Lines: true}}, 120*time.Second)
	if err != nil || len(as) == 0 || as[0].Res == nil {
		return "", fmt.Errorf("replay failed: %v", err)
	}
	r1 := as[0].Res
	r2 := m.run(small)
	v := pickKey(prop, h.v.Key, r1, known)
	if v == nil || r2 == nil || r2.TraceHash != r1.TraceHash || r2.Hash != r1.Hash {
		return "", fmt.Errorf("seed %d: the minimised run of %s does not repeat exactly (%s)", h.a.Seed, h.v.Key, whyNot(v, r1, r2))
	}
	f := replayFile{Property: prop, Key: v.Key, Message: v.Msg, AtMs: v.AtMs, Seed: h.a.Seed, TraceHash: fmt.Sprintf("%016x", r1.TraceHash), Hash: fmt.Sprintf("%016x", r1.Hash), Minimised: true, Steps: steps, Trace: r1.Lines, Scenario: small}
	b, _ := json.MarshalIndent(f, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	p := filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s-%d.json", prop, h.a.Seed))
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		return "", err
	}
	h.v = *v
	return p, nil
}

func whyNot(v *violation, r1, r2 *result) string {
	if v == nil || r2 == nil {
		return fmt.Sprintf("violation shown: first run %v, second run %v", v != nil, r2 != nil)
	}
	return fmt.Sprintf("hashes %016x/%016x and %016x/%016x", r1.TraceHash, r1.Hash, r2.TraceHash, r2.Hash)
}

func pickKey(prop, key string, r *result, known map[string]bool) *violation {
	if r == nil {
		return nil
	}
	for i, v := range r.Viol {
		if v.Prop == prop && v.Key == key {
			return &r.Viol[i]
		}
	}
	if key == "engine-panic" || key == "engine-livelock" {
		if v := pick(prop, &result{Panics: r.Panics, Livelock: r.Livelock}, known); v != nil && v.Key == key {
			return v
		}
	}
	return nil
}

type minimiser struct {
	worker, prop, key string
	known             map[string]bool
	deadline          time.Time
	tried             int
}

// run tells whether a scenario still shows the violation.
func (m *minimiser) run(sc json.RawMessage) *result {
	as, err := ask(m.worker, []request{{Sc: sc, Prop: m.prop}}, 60*time.Second)
	if err != nil && len(as) == 0 || len(as) == 0 || as[0].Res == nil {
		return nil
	}
	if pickKey(m.prop, m.key, as[0].Res, m.known) == nil {
		return nil
	}
	return as[0].Res
}

// any tries candidates on all cores and returns the first (lowest) that still fails.
func (m *minimiser) any(cs []map[string]json.RawMessage) (int, *result) {
	for lo := 0; lo < len(cs) && time.Now().Before(m.deadline); lo += cpus {
		hi := min(lo+cpus, len(cs))
		rs := make([]*result, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				b, err := json.Marshal(cs[i])
				if err == nil {
					rs[i-lo] = m.run(b)
				}
			}(i)
		}
		wg.Wait()
		m.tried += hi - lo
		for i, r := range rs {
			if r != nil {
				return lo + i, r
			}
		}
	}
	return -1, nil
}

func obj(b json.RawMessage) map[string]json.RawMessage {
	m := map[string]json.RawMessage{}
	json.Unmarshal(b, &m)
	return m
}

func clone(m map[string]json.RawMessage) map[string]json.RawMessage {
	n := map[string]json.RawMessage{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func js(v interface{}) json.RawMessage { b, _ := json.Marshal(v); return b }

func list(b json.RawMessage) []json.RawMessage {
	var l []json.RawMessage
	json.Unmarshal(b, &l)
	return l
}

func (m *minimiser) minimise(sc json.RawMessage, r *result) (json.RawMessage, string) {
	cur := obj(sc)
	ops0, flt0 := len(list(cur["Ops"])), len(list(cur["Faults"]))
	ok := func(c map[string]json.RawMessage) bool {
		if time.Now().After(m.deadline) {
			return false
		}
		if i, nr := m.any([]map[string]json.RawMessage{c}); i >= 0 {
			cur, r = c, nr
			return true
		}
		return false
	}
	// the run after the violation does not matter
	cut := func() {
		v := pickKey(m.prop, m.key, r, m.known)
		if v == nil || v.AtMs <= 0 {
			return
		}
		c := clone(cur)
		var hz int
		json.Unmarshal(c["Horizon"], &hz)
		if h := int(v.AtMs/1000) + 3; h < hz {
			c["Horizon"] = js(h)
			ok(c)
		}
	}
	cut()
	// schedule: record what was random and make it explicit, then drop it
	sched := obj(cur["Sched"])
	if len(r.Preempts) > 0 || len(r.Stalls) > 0 {
		c := clone(cur)
		s := clone(sched)
		s["Explicit"], s["Preempts"], s["Stalls"] = js(true), js(r.Preempts), js(r.Stalls)
		c["Sched"] = js(s)
		if !ok(c) {
			c = nil
		}
	}
	{
		c := clone(cur)
		s := obj(cur["Sched"])
		s["Explicit"], s["Preempts"], s["Stalls"] = js(true), js([]uint64{}), js(map[string]int{})
		c["Sched"] = js(s)
		ok(c)
	}
	for _, pol := range []func(map[string]json.RawMessage){
		func(s map[string]json.RawMessage) { s["Policy"], s["SwitchPct"] = js(2), js(0) },
		func(s map[string]json.RawMessage) { s["SwitchPct"] = js(0) },
		func(s map[string]json.RawMessage) { s["Policy"] = js(2) },
	} {
		c := clone(cur)
		s := obj(cur["Sched"])
		pol(s)
		c["Sched"] = js(s)
		if ok(c) {
			break
		}
	}
	m.drop(&cur, &r, "Faults")
	m.drop(&cur, &r, "Ops")
	m.dropSched(&cur, &r)
	m.drop(&cur, &r, "Faults")
	// single submissions
	ops := list(cur["Ops"])
	for i := range ops {
		o := obj(ops[i])
		if string(o["Dup"]) == "" || string(o["Dup"]) == "0" {
			continue
		}
		o2 := clone(o)
		delete(o2, "Dup")
		delete(o2, "DupGap")
		l := append([]json.RawMessage(nil), ops...)
		l[i] = js(o2)
		c := clone(cur)
		c["Ops"] = js(l)
		if ok(c) {
			ops = l
		}
	}
	// the people at the table: fewer, and doing less
	if w := obj(cur["B"]); len(w) > 0 {
		n0 := len(list(w["Actors"]))
		for i := n0 - 1; i >= 0; i-- {
			w = obj(cur["B"])
			l := list(w["Actors"])
			w["Actors"] = js(append(append([]json.RawMessage(nil), l[:i]...), l[i+1:]...))
			c := clone(cur)
			c["B"] = js(w)
			ok(c)
		}
		for _, f := range []string{"PubMs", "Wrong", "Auto", "Idle", "ReBuy"} {
			w = obj(cur["B"])
			l := list(w["Actors"])
			for i := range l {
				a := obj(l[i])
				a[f] = js(0)
				l[i] = js(a)
			}
			w["Actors"] = js(l)
			c := clone(cur)
			c["B"] = js(w)
			ok(c)
		}
	}
	// reactive client behaviours
	for _, off := range []string{"rebuy", "quit", "join", "plain-hands"} {
		var offs []string
		json.Unmarshal(cur["Off"], &offs)
		c := clone(cur)
		c["Off"] = js(append(append([]string(nil), offs...), off))
		ok(c)
	}
	cut()
	for _, ph := range []int64{0} {
		c := clone(cur)
		c["PhaseNs"] = js(ph)
		ok(c)
	}
	b := js(cur)
	return b, fmt.Sprintf("operations %d -> %d, faults %d -> %d, %d candidate runs", ops0, len(list(cur["Ops"])), flt0, len(list(cur["Faults"])), m.tried)
}

// drop removes chunks of a list while the violation stays (ddmin).
func (m *minimiser) drop(cur *map[string]json.RawMessage, r **result, field string) {
	l := list((*cur)[field])
	for n := 2; len(l) > 0 && time.Now().Before(m.deadline); {
		if n > len(l) {
			n = len(l)
		}
		var cs []map[string]json.RawMessage
		var ls [][]json.RawMessage
		if n == 2 || len(l) == 1 {
			c := clone(*cur)
			c[field] = js([]json.RawMessage{})
			cs, ls = append(cs, c), append(ls, []json.RawMessage{})
		}
		for i := 0; i < n; i++ {
			lo, hi := len(l)*i/n, len(l)*(i+1)/n
			rest := append(append([]json.RawMessage(nil), l[:lo]...), l[hi:]...)
			c := clone(*cur)
			c[field] = js(rest)
			cs, ls = append(cs, c), append(ls, rest)
		}
		i, nr := m.any(cs)
		if i >= 0 {
			*cur, *r, l = cs[i], nr, ls[i]
			if n > 2 {
				n--
			}
			continue
		}
		if n >= len(l) {
			return
		}
		n *= 2
	}
}

// dropSched removes single explicit preemptions and stalls.
func (m *minimiser) dropSched(cur *map[string]json.RawMessage, r **result) {
	for _, f := range []string{"Preempts"} {
		s := obj((*cur)["Sched"])
		l := list(s[f])
		for n := 2; len(l) > 0 && time.Now().Before(m.deadline); {
			if n > len(l) {
				n = len(l)
			}
			var cs []map[string]json.RawMessage
			var ls [][]json.RawMessage
			for i := 0; i < n; i++ {
				lo, hi := len(l)*i/n, len(l)*(i+1)/n
				rest := append(append([]json.RawMessage(nil), l[:lo]...), l[hi:]...)
				c := clone(*cur)
				s2 := clone(s)
				s2[f] = js(rest)
				c["Sched"] = js(s2)
				cs, ls = append(cs, c), append(ls, rest)
			}
			i, nr := m.any(cs)
			if i >= 0 {
				*cur, *r, l = cs[i], nr, ls[i]
				s = obj((*cur)["Sched"])
				if n > 2 {
					n--
				}
				continue
			}
			if n >= len(l) {
				break
			}
			n *= 2
		}
	}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		die("%v", err)
	}
	worker, err := buildWorker()
	if err != nil {
		die("build: %v", err)
	}
	as, err := ask(worker, []request{{Sc: f.Scenario, Prop: f.Property, Lines: true}}, 120*time.Second)
	if err != nil && len(as) == 0 || len(as) == 0 || as[0].Res == nil {
		die("replay failed: %v", err)
	}
	r := as[0].Res
	for _, l := range r.Lines {
		fmt.Println(l)
	}
	v := pickKey(f.Property, f.Key, r, map[string]bool{})
	if v == nil {
		fmt.Printf("replay of %s: the violation does not occur on the current tree\n", file)
		return 0
	}
	same := fmt.Sprintf("%016x", r.TraceHash) == f.TraceHash && v.AtMs == f.AtMs
	fmt.Printf("%s: %s at %d ms (identical to the recorded run: %v)\n", v.Key, v.Msg, v.AtMs, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	return 1
}

// selftest proves that a seed is one execution: every profile, several seeds,
// in different processes, orders and process loads.
func selftest(n int) int {
	worker, err := buildWorker()
	if err != nil {
		die("build: %v", err)
	}
	bad := 0
	for i := 1; i <= 22; i++ {
		p := fmt.Sprintf("C%02d", i)
		ran, b := again(worker, p, uint64(7_000_000+i*1000), n)
		fmt.Printf("%s: %d runs repeated, %d differ\n", p, ran, b)
		bad += b
	}
	if bad > 0 {
		return 1
	}
	return 0
}
