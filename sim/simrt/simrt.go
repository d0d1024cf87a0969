// Package simrt is the deterministic simulation runtime that instrumented code
// is linked against. Exactly one registered goroutine (the "holder") executes
// between two scheduling decisions; every other registered goroutine is either
// durably blocked (channel, timer, WaitGroup, sim lock) or parked at a gate.
// The scheduler (running in the synctest root goroutine) chooses who runs next
// from a seeded hash, so an execution is a pure function of (program, seed).
package simrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

func getg() uintptr

// ---------------------------------------------------------------- hashing

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// Hash mixes its arguments into one 64-bit value.
func Hash(xs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range xs {
		h = mix(h ^ mix(x+0x9e3779b97f4a7c15))
	}
	return h
}

// HashStr hashes a string.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

// ---------------------------------------------------------------- scheduler

// Config parameterises one execution.
type Config struct {
	Seed        uint64
	Policy      int              // 0: uniform random pick, 1: random priorities (PCT-like), priority changed at preemptions, 2: lowest id
	PreemptRate uint64           // a statement in yielding code is a preemption point with probability rate/1e6
	StallRate   uint64           // a preemption is turned into a stall (goroutine sleeps) with probability rate/1e6
	MaxPreempts int              // upper bound on preemptions in the run
	HotRate     uint64           // the same rate for goroutines marked hot (see Hot)
	MaxHot      int              // upper bound on preemptions of hot goroutines
	Explicit    bool             // use the explicit lists below instead of rates (replay / minimised traces)
	Preempts    []uint64         // yield indices at which the running goroutine is preempted
	Stalls      map[uint64]int64 // yield index -> stall nanoseconds
	StepLimit   uint64           // total gates+yields before the run is declared livelocked
	BurstLimit  uint64           // gates+yields in a single uninterrupted burst without time advancing
	RandUntil   uint64           // scheduling decisions >= this index use the lowest id (0: unlimited)
}

type G struct {
	s       *Sched
	id      uint64
	ptr     uintptr
	name    string
	ch      chan struct{}
	spawns  uint64
	prio    uint64
	exiting bool
	depth   int    // >0: preemption disabled (harness code)
	hot     int    // >0: preempted at the hot rate
	iters   uint64 // map iterations and selects by this goroutine
}

type Panic struct {
	Name  string
	Value string
	Stack string
}

type Sched struct {
	tick      int64
	cfg       Config
	mu        sync.Mutex
	ready     []*G
	names     map[uint64]uint64 // goroutines started under a name
	live      map[*G]struct{}
	arrive    chan struct{}
	holder    uintptr
	cur       *G
	decisions uint64
	yields    uint64
	steps     uint64
	burst     uint64
	lastNow   time.Time
	preempts  []uint64
	stalls    map[uint64]int64
	preIdx    int
	dead      atomic.Bool
	Livelock  bool
	LivelockG string
	Panics    []Panic
	anon      uint64
	lockWait  map[*waiter]struct{}
	preG      *G // parked at a potential preemption
	preHot    bool
	hots      int // preemptions and stalls of hot goroutines
	preY      uint64
	preSite   uint32
	trace     uint64 // running hash over scheduling decisions
	eventHash uint64
	preemptOn bool
	Picks     uint64 // context switches so far
	Preempted int    // goroutines preempted or stalled in the middle of engine code
	Quiet     func() // called (on the root) when nothing can run at this instant
	MaxReady  int
	Contended uint64 // decisions with >1 ready goroutine
	edges     map[uint64]struct{}
	lastSite  uint64
}

var (
	gmu   sync.Mutex
	gs    = map[uintptr]*G{}
	curS  *Sched
	holdP uintptr // fast path copy of curS.holder
)

// New creates the scheduler of one execution; call inside a synctest bubble.
func New(cfg Config) *Sched {
	if cfg.StepLimit == 0 {
		cfg.StepLimit = 50_000_000
	}
	if cfg.BurstLimit == 0 {
		cfg.BurstLimit = 3_000_000
	}
	s := &Sched{cfg: cfg, live: map[*G]struct{}{}, arrive: make(chan struct{}, 1), stalls: map[uint64]int64{}, lockWait: map[*waiter]struct{}{}, edges: map[uint64]struct{}{}, names: map[uint64]uint64{}}
	s.preemptOn = cfg.Explicit && (len(cfg.Preempts) > 0 || len(cfg.Stalls) > 0) || !cfg.Explicit && (cfg.PreemptRate > 0 || cfg.HotRate > 0)
	curS = s
	holdP = 0
	return s
}

func lookup(p uintptr) *G {
	gmu.Lock()
	g := gs[p]
	gmu.Unlock()
	return g
}

func (s *Sched) register(id uint64, name string) *G {
	g := &G{s: s, id: id, ptr: getg(), name: name, ch: make(chan struct{}, 1), prio: Hash(s.cfg.Seed, 77, id)}
	gmu.Lock()
	gs[g.ptr] = g
	gmu.Unlock()
	s.mu.Lock()
	s.live[g] = struct{}{}
	s.mu.Unlock()
	return g
}

func (g *G) unregister() {
	if holdP == g.ptr {
		holdP = 0 // the address may be given to another goroutine
	}
	gmu.Lock()
	if gs[g.ptr] == g {
		delete(gs, g.ptr)
	}
	gmu.Unlock()
	g.s.mu.Lock()
	delete(g.s.live, g)
	g.s.mu.Unlock()
}

func (s *Sched) park(g *G) {
	if g.exiting {
		return
	}
	if s.dead.Load() {
		g.exiting = true
		runtime.Goexit()
	}
	s.mu.Lock()
	s.ready = append(s.ready, g)
	s.mu.Unlock()
	select {
	case s.arrive <- struct{}{}:
	default:
	}
	<-g.ch
	if s.dead.Load() {
		g.exiting = true
		runtime.Goexit()
	}
}

// self returns the calling registered goroutine, registering an unknown one.
func self() *G {
	p := getg()
	g := lookup(p)
	if g != nil {
		return g
	}
	s := curS
	if s == nil {
		return nil
	}
	s.mu.Lock()
	s.anon++
	n := s.anon
	s.mu.Unlock()
	return s.register(Hash(0xa404, n), "anon")
}

// Root marks the calling goroutine as the scheduler's own: it never gates.
func (s *Sched) Root() {
	g := s.register(1, "root")
	g.exiting = true
}

func (s *Sched) step() {
	s.steps++
	s.burst++
	if s.steps >= s.cfg.StepLimit || s.burst >= s.cfg.BurstLimit {
		if !s.dead.Load() && !s.Livelock {
			s.Livelock = true
			s.LivelockG = string(debug.Stack())
		}
		g := self()
		if g != nil && !g.exiting {
			// never runs again
			g.exiting = true
			s.dead.Store(true)
			select {
			case s.arrive <- struct{}{}:
			default:
			}
			runtime.Goexit()
		}
	}
}

// Gate is the entry check: only the holder passes. No preemption.
func Gate() {
	if getg() == holdP && holdP != 0 {
		curS.step()
		return
	}
	gateSlow()
}

func gateSlow() {
	g := self()
	if g == nil || g.exiting {
		return
	}
	g.s.park(g)
}

// Yield is Gate plus a potential preemption point (used in /repo's packages).
func Yield(site uint32) {
	if getg() == holdP && holdP != 0 {
		s := curS
		s.step()
		if s.preemptOn {
			s.maybePreempt(site)
		}
		return
	}
	gateSlow()
}

func (s *Sched) maybePreempt(site uint32) {
	s.yields++
	y := s.yields
	g := s.cur
	if g == nil || g.exiting || g.depth > 0 {
		return
	}
	if s.cfg.Explicit {
		if d, ok := s.cfg.Stalls[y]; ok {
			s.stalls[y] = d
			s.note(site)
			s.Preempted++
			time.Sleep(time.Duration(d))
			s.park(g)
			s.Preempted--
			return
		}
		for s.preIdx < len(s.cfg.Preempts) && s.cfg.Preempts[s.preIdx] < y {
			s.preIdx++
		}
		if s.preIdx < len(s.cfg.Preempts) && s.cfg.Preempts[s.preIdx] == y {
			s.preempts = append(s.preempts, y)
			s.note(site)
			g.prio = Hash(s.cfg.Seed, 78, g.id, y)
			s.Preempted++
			s.park(g)
			s.Preempted--
		}
		return
	}
	h := Hash(s.cfg.Seed, 79, y) % 1_000_000
	s.preHot = false
	if g.hot > 0 && s.hots < s.cfg.MaxHot && h < s.cfg.HotRate {
		s.preHot = true
	} else if h >= s.cfg.PreemptRate || len(s.preempts)+len(s.stalls)-s.hots >= s.cfg.MaxPreempts {
		return
	}
	if Hash(s.cfg.Seed, 80, y)%1_000_000 < s.cfg.StallRate {
		ds := []int64{1e6, 10e6, 100e6, 400e6, 700e6, 1500e6, 3200e6}
		d := ds[Hash(s.cfg.Seed, 81, y)%uint64(len(ds))]
		s.stalls[y] = d
		if s.preHot {
			s.hots++
		}
		s.note(site)
		s.Preempted++
		time.Sleep(time.Duration(d))
		s.park(g)
		s.Preempted--
		return
	}
	// whether there is anybody to switch to is only known once everything
	// that can run has arrived: pick decides whether this is a preemption
	s.preG, s.preY, s.preSite = g, y, site
	s.Preempted++
	s.park(g)
	s.Preempted--
}

// note records a context-switch edge (site preempted after last switch site).
func (s *Sched) note(site uint32) {
	s.edges[Hash(uint64(site), s.lastSite)] = struct{}{}
	s.lastSite = uint64(site)
}

// Switch parks the calling goroutine voluntarily (an event-level switch point).
func Switch() {
	g := self()
	if g == nil || g.exiting {
		return
	}
	g.s.park(g)
}

// NoPreempt runs f with statement preemption disabled on this goroutine
// (harness callbacks and oracles).
func NoPreempt(f func()) {
	g := self()
	if g == nil {
		f()
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	f()
}

// Hot runs f with this goroutine preempted at the hot rate: activities that
// run at the same time as another one on the same data.
func Hot(f func()) {
	g := self()
	if g == nil {
		f()
		return
	}
	g.hot++
	defer func() { g.hot-- }()
	f()
}

// Go starts f as a registered goroutine.
func Go(f func()) { GoNamed("", f) }

func GoNamed(name string, f func()) {
	p := self()
	if p == nil {
		go f()
		return
	}
	s := p.s
	if p.exiting && p.id != 1 || s.dead.Load() {
		return
	}
	p.spawns++
	id := Hash(p.id, p.spawns)
	if name != "" {
		id = HashStr(name)
		s.names[id]++
		if n := s.names[id]; n > 1 {
			id = Hash(id, n)
		}
	}
	go s.main(id, name, f)
}

func (s *Sched) main(id uint64, name string, f func()) {
	g := s.register(id, name)
	defer g.unregister()
	defer func() {
		if r := recover(); r != nil {
			s.mu.Lock()
			if !s.dead.Load() {
				s.Panics = append(s.Panics, Panic{Name: name, Value: fmt.Sprint(r), Stack: string(debug.Stack())})
				s.dead.Store(true)
			}
			s.mu.Unlock()
			select {
			case s.arrive <- struct{}{}:
			default:
			}
		}
	}()
	s.park(g)
	f()
}

// AfterFunc mirrors time.AfterFunc for instrumented code.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	p := self()
	if p == nil {
		return time.AfterFunc(d, f)
	}
	s := p.s
	p.spawns++
	id := Hash(p.id, p.spawns)
	return time.AfterFunc(d, func() { s.main(id, "", f) })
}

// Run drives the execution until stop() is true at a decision point, the
// horizon passes, or the run dies (panic / livelock).
func (s *Sched) Run(horizon time.Duration, wait func(), stop func() bool) {
	timer := time.NewTimer(horizon)
	defer timer.Stop()
	s.lastNow = time.Now()
	for {
		wait()
		holdP = 0
		s.holder = 0
		s.cur = nil
		if s.dead.Load() {
			break
		}
		if n := time.Now(); !n.Equal(s.lastNow) {
			s.lastNow = n
			s.burst = 0
		}
		if stop() {
			break
		}
		s.mu.Lock()
		n := len(s.ready)
		if n > 0 {
			g := s.pick()
			s.mu.Unlock()
			s.cur = g
			s.holder = g.ptr
			holdP = g.ptr
			g.ch <- struct{}{}
			continue
		}
		s.mu.Unlock()
		if s.Quiet != nil {
			s.Quiet()
			if s.dead.Load() {
				break
			}
		}
		select {
		case <-s.arrive:
		case <-timer.C:
			goto out
		}
	}
out:
	s.dead.Store(true)
	holdP = 0
	// drain: let every parked / lock-waiting goroutine unwind via Goexit
	for i := 0; i < 50; i++ {
		s.mu.Lock()
		rs := s.ready
		s.ready = nil
		ws := make([]*waiter, 0, len(s.lockWait))
		for w := range s.lockWait {
			ws = append(ws, w)
		}
		s.lockWait = map[*waiter]struct{}{}
		s.mu.Unlock()
		for _, g := range rs {
			g.ch <- struct{}{}
		}
		for _, w := range ws {
			select {
			case w.ch <- struct{}{}:
			default:
			}
		}
		wait()
		if len(rs) == 0 && len(ws) == 0 {
			break
		}
	}
	time.Sleep(200 * 24 * time.Hour) // flush sleeping goroutines; each exits at its next gate
	wait()
	gmu.Lock()
	for p, g := range gs {
		if g.s == s {
			delete(gs, p)
		}
	}
	gmu.Unlock()
	curS = nil
}

// pick is called with s.mu held and len(s.ready) > 0.
func (s *Sched) pick() *G {
	sort.Slice(s.ready, func(i, j int) bool { return s.ready[i].id < s.ready[j].id })
	n := len(s.ready)
	if g := s.preG; g != nil {
		s.preG = nil
		if n == 1 && s.ready[0] == g {
			s.ready = s.ready[:0]
			return g // nobody to switch to: not a preemption
		}
		s.preempts = append(s.preempts, s.preY)
		if s.preHot {
			s.hots++
		}
		s.note(s.preSite)
		g.prio = Hash(s.cfg.Seed, 78, g.id, s.preY)
	}
	if n > s.MaxReady {
		s.MaxReady = n
	}
	k := 0
	if n > 1 {
		s.Contended++
		s.decisions++
		d := s.decisions
		switch {
		case s.cfg.RandUntil > 0 && d >= s.cfg.RandUntil:
			k = 0
		case s.cfg.Policy == 2:
			k = 0
		case s.cfg.Policy == 1:
			for i := range s.ready {
				if s.ready[i].prio > s.ready[k].prio {
					k = i
				}
			}
		default:
			k = int(Hash(s.cfg.Seed, 5, d) % uint64(n))
		}
	}
	g := s.ready[k]
	s.Picks++
	s.ready = append(s.ready[:k:k], s.ready[k+1:]...)
	s.trace = Hash(s.trace, g.id, uint64(n))
	if loud {
		println("PICK", s.Picks, g.id, g.name, n, time.Now().UnixMilli(), s.yields, s.steps)
	}
	return g
}

// GID is the stable id of the calling goroutine.
func GID() uint64 {
	if g := self(); g != nil {
		return g.id
	}
	return 0
}

// Dead reports whether the execution has ended (oracles must stay silent).
func (s *Sched) Dead() bool { return s.dead.Load() }

// Kill ends the execution from inside a registered goroutine.
func (s *Sched) Kill() {
	s.dead.Store(true)
	select {
	case s.arrive <- struct{}{}:
	default:
	}
}

// Mark folds an observable event into the determinism hash.
func (s *Sched) Mark(str string) { s.eventHash = Hash(s.eventHash, HashStr(str)) }

type Stats struct {
	Steps, Yields, Decisions, Contended uint64
	Preempts                            []uint64
	Stalls                              map[uint64]int64
	Trace, Events                       uint64
	Edges                               int
	MaxReady                            int
	Live                                int
}

func (s *Sched) Stats() Stats {
	return Stats{Steps: s.steps, Yields: s.yields, Decisions: s.decisions, Contended: s.Contended, Preempts: s.preempts, Stalls: s.stalls, Trace: s.trace, Events: s.eventHash, Edges: len(s.edges), MaxReady: s.MaxReady, Live: len(s.live)}
}

// ---------------------------------------------------------------- output

func Printf(format string, a ...interface{}) (int, error) {
	if loud {
		return fmt.Printf(format, a...)
	}
	return 0, nil
}

// loud: show what the code under test prints, for looking into one run.
var loud = os.Getenv("VERIF_LOUD") != ""

func Println(a ...interface{}) (int, error) { return 0, nil }
func Print(a ...interface{}) (int, error)   { return 0, nil }

// NPreempts counts the preemptions and stalls so far.
func (s *Sched) NPreempts() int { return len(s.preempts) + len(s.stalls) }

// TickNow is the simulated clock plus a nanosecond for every reading.
func TickNow() time.Time {
	if s := curS; s != nil {
		s.tick++
		return time.Now().Add(time.Duration(s.tick))
	}
	return time.Now()
}
