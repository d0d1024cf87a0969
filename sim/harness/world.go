package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"verif/simrt"

	"github.com/google/uuid"
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// Violation is one observed breach of a listed property.
type Violation struct {
	Prop string
	Key  string // rule that was broken, stable across seeds
	Msg  string
	AtMs int64
}

// World is one simulated deployment.
type World struct {
	sc      *Scenario
	s       *simrt.Sched
	mgr     pc.Manager
	b       *Backend
	t0      time.Time
	abort   bool // nothing after this can be judged
	failing bool // the table service refuses requests it should not
	comps   []*Comp
	byID    map[string]*Comp

	lines    []string
	nLines   int
	bEnded   int
	viol     []Violation
	seen     map[string]bool
	off      map[string]bool
	doneOps  int
	allOps   int
	stopAt   time.Time // the run ends here once everything is over
	setup    bool
	resets   int
	resetAct int
	endMs    int64

	nRequests, nReports, nHands, nSettled, nCalls int
	nExact                                        int
	faults                                        map[string]int
	states                                        map[uint64]struct{}
	checks                                        map[string]int
	quiets                                        int
	probes                                        int
}

// Comp is one competition of the world with its reference model.
type Comp struct {
	w       *World
	i       int
	key     uint64
	spec    *CompSpec
	eng     pc.CompetitionEngine
	st      *pc.Competition
	own     *Backend
	tables  map[string]*FTable
	order   []*FTable
	calls   map[string]int
	active  int // competition entry points in progress
	backend int // table service requests in progress
	settles int
	joins   int
	trace   []string // per-competition trace (C18)

	created   bool
	createdAt time.Time
	released  bool

	serialGID                uint64
	serialT                  time.Time
	stopBatch                int
	playUntil                time.Time       // the last moment of play before a break
	refundLap                bool            // an accepted refund or leave overlapped the start
	refundBusy               bool            // a refund or leave was accepted and nothing has come to rest since
	ev                       map[string]bool // what took effect since the books were last right
	inQuiet                  bool
	sinces                   map[string]time.Time
	dirty                    bool
	lastQuiet                time.Time
	errEvents                int
	playerEvents             int
	svcErrs                  []*svcErr
	assign                   string
	assignN                  int
	again                    int             // repeated reports of settled hands being delivered
	quitRace                 map[string]bool // a quit of the player overlapped a buy-in
	heard                    map[string]pc.CompetitionPlayer
	seen                     *seenState
	staleAt                  time.Time
	staleKey                 string
	stateEvents              int
	nests                    map[*nestRec]bool
	nested                   int // settlements being handled inside a request to the same table
	disableSeen, disableFull bool
	overtaken                bool                       // a purchase failed because the competition ended under it
	regOverlap               bool                       // a buy-in seated players while a settlement was moving others (sticky)
	backGID                  map[int64]int              // table service requests in progress by task
	earlyHands               map[string]*earlyHand      // dealt a hand before their buy-in answered
	trig                     map[string][]chan struct{} // requests held back until an event
	twice                    map[string]bool            // seated at two tables by an overlap already reported
	notified                 map[string][]int           // places told to players
	bpsL                     []*BP
	bpsSeq                   int
	redeems                  map[string][]int64
	buyinN                   map[string]int // buy-in requests made per player
	brkReady                 map[int]map[*FTable]int

	book
}

func (w *World) now() time.Time { return time.Now() }
func (w *World) ms() int64      { return time.Since(w.t0).Milliseconds() }

// log records one trace line.
func (w *World) log(c *Comp, f string, a ...interface{}) {
	w.s.Mark(w.note(c, f, a...))
}

// note records one trace line that is not part of the run's identity.
func (w *World) note(c *Comp, f string, a ...interface{}) string {
	id := "-"
	if c != nil {
		id = c.spec.ID
	}
	l := fmt.Sprintf("%9.3f %s ", float64(time.Since(w.t0).Microseconds())/1e6, id) + fmt.Sprintf(f, a...)
	w.nLines++
	w.lines = append(w.lines, l)
	if len(w.lines) > 60000 {
		w.lines = append([]string(nil), w.lines[30000:]...)
	}
	if c != nil {
		c.trace = append(c.trace, l)
	}
	return l
}

// violate reports a breach (once per rule and property in a run).
func (w *World) violate(c *Comp, prop, key, f string, a ...interface{}) {
	if w.s.Dead() {
		return
	}
	if c != nil && c.released && prop != "C18" && c.st != nil && !c.ended() {
		return // released while running: its tables report to nobody any more
	}
	if w.failing && prop != "C25" {
		return // only what must hold however the table service fails is judged
	}
	k := prop + "/" + key
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	if os.Getenv("VERIF_LOUD") != "" {
		buf := make([]byte, 1<<20)
		println(string(buf[:runtime.Stack(buf, true)]))
	}
	id := ""
	if c != nil {
		id = c.spec.ID + ": "
	}
	v := Violation{Prop: prop, Key: key, Msg: id + fmt.Sprintf(f, a...), AtMs: w.ms()}
	w.viol = append(w.viol, v)
	w.s.Mark(k)
	w.note(c, "VIOLATION %s %s: %s", prop, key, v.Msg)
	if c != nil && c.inQuiet && !strings.HasSuffix(key, "-overlap") {
		if p := c.blame(prop); p != "" && p != prop {
			w.violate(c, p, prop+"-"+key, "%s (nothing else happened since the books were last right)", v.Msg)
		}
	}
}

// happened notes what took effect since the books were last found right.
func (c *Comp) happened(kind string) {
	if c.ev == nil {
		c.ev = map[string]bool{}
	}
	c.ev[kind] = true
}

// blame names the property whose statement a wrong book breaks as well, when
// only one kind of event can have caused it.
func (c *Comp) blame(prop string) string {
	if prop != "C01" && prop != "C11" && prop != "C19" {
		return ""
	}
	n := len(c.ev)
	switch {
	case n == 1 && c.ev["refund"]:
		return "C05"
	case n == 1 && c.ev["addon"]:
		return "C04"
	case prop == "C01" && (n == 1 && (c.ev["buyin"] || c.ev["rebuy"]) || n == 2 && c.ev["buyin"] && c.ev["rebuy"]):
		return "C03"
	case c.ev["dup"] && (n == 1 || n == 2 && c.ev["hand"]):
		return "C02"
	}
	return ""
}

func (w *World) injected(f *Fault) {
	w.faults[f.Kind+"/"+f.Method]++
	w.log(w.comps[f.Comp], "FAULT %s %s #%d %dms", f.Kind, f.Method, f.Nth, f.Ms)
}

func (c *Comp) fault(kind, method string, nth int) *Fault {
	for i := range c.w.sc.Faults {
		f := &c.w.sc.Faults[i]
		if f.Comp == c.i && f.Kind == kind && f.Method == method && f.Nth == nth {
			return f
		}
	}
	return nil
}

// within names a request by the client call it is made in ("PlayersLeave@quit").
func (c *Comp) within(method string) string {
	g := uint64(simrt.GID())
	for cr := range c.inFlight {
		if cr.gid == g {
			return method + "@" + cr.kind
		}
	}
	return ""
}

// faultOf is the fault meant for the n-th request of that method, or for the
// request's place among those made in calls of that kind.
func (c *Comp) faultOf(kind, method string, n int, within string) *Fault {
	if f := c.fault(kind, method, n); f != nil || within == "" {
		return f
	}
	return c.fault(kind, within, c.calls[within])
}

func (w *World) switchPoint(c *Comp, method string, n, pos int) bool {
	p := w.sc.Sched.SwitchPct
	if p == 0 {
		return false
	}
	return int(simrt.Hash(w.sc.Seed, c.key, simrt.HashStr(method), uint64(n), uint64(pos), 31)%100) < p
}

// tableOwner finds the competition a request about an unknown table came from
// (only used to account for the request).
func (w *World) tableOwner(id string, b *Backend) *Comp {
	if b.direct != nil {
		return b.direct
	}
	for _, c := range w.comps {
		if strings.HasPrefix(id, c.spec.ID+"-") {
			return c
		}
	}
	if len(w.comps) > 0 {
		return w.comps[0]
	}
	return nil
}

func (c *Comp) has(what string) bool { return !c.w.off[what] }

// ---------------------------------------------------------------- deliveries

// deliver hands one table report to the competition, as the table service does.
func (c *Comp) deliver(t *FTable, cl *pokertable.Table, why string, dup bool) {
	settled := cl.State.Status == pokertable.TableStateStatus_TableGameSettled
	first := false
	var rec *settleRec
	if settled {
		gc := cl.State.GameCount
		if c.reported[t] == nil {
			c.reported[t] = map[int]bool{}
		}
		if !c.reported[t][gc] && cl.State.GameState != nil && cl.State.GameState.Result != nil {
			c.reported[t][gc] = true
			first = true
		}
	}
	if first && !dup {
		n := c.settles
		for _, k := range []string{"dup", "stale-dup"} {
			if f := c.fault(k, "settled", n); f != nil {
				c.w.injected(f)
				d := time.Duration(f.Ms) * time.Millisecond
				cp := cloneTable(cl)
				simrt.GoNamed(fmt.Sprintf("dup:%s:%s", c.spec.ID, f.ID), func() {
					time.Sleep(d)
					simrt.Gate()
					c.w.log(c, "table %d hand %d reported again", t.ord, cp.State.GameCount)
					c.deliver(t, cp, "dup", true)
				})
			}
		}
	}
	if cl.State.Status == pokertable.TableStateStatus_TableGameSettled {
		c.happened(map[bool]string{true: "hand", false: "dup"}[first])
		for _, r := range c.recs {
			if !first && r.t == t && r.gc == cl.State.GameCount {
				r.dup = true
			}
		}
	}
	if first {
		rec = c.beginSettle(t, cl)
	}
	switch why {
	case "UpdateTablePlayers", "PlayerReserve", "PlayersLeave":
		// the report of the finished hand reaches the competition through
		// the table's answer to one of its own requests: first of all, or
		// while the first one is still on its way
		r := rec
		for _, x := range c.recs {
			if settled && r == nil && x.t == t && x.gc == cl.State.GameCount && !x.nested {
				r = x
			}
		}
		if r != nil {
			r.nested = true
			n := &nestRec{t: t, gc: r.gc, lo: time.Now()}
			c.nests[n] = true
			c.nested++
			defer func() { c.nested--; delete(c.nests, n) }()
		} else if c.isCash() && cl.State.Status == pokertable.TableStateStatus_TablePausing {
			// likewise a pause, at which leaving players are paid
			n := &nestRec{t: t, gc: cl.State.GameCount, lo: time.Now()}
			c.nests[n] = true
			c.nested++
			defer func() { c.nested--; delete(c.nests, n) }()
		}
	}
	if settled && !first {
		c.again++
		defer func() { c.again-- }()
	}
	c.active++
	if c.own != nil {
		c.own.onUpd(cl)
	} else {
		rel := c.released
		err := c.w.mgr.UpdateTable(c.spec.ID, cl)
		c.checkRoute("UpdateTable", rel, err)
	}
	c.active--
	if first {
		c.endSettle(rec)
	}
	c.afterDeliver(t, cl)
}

func (c *Comp) deliverReserved(t *FTable, p *pokertable.TablePlayerState) {
	c.active++
	defer func() { c.active-- }()
	if c.own != nil {
		c.own.onRes(t.tb.ID, p)
	} else {
		rel := c.released
		err := c.w.mgr.UpdateReserveTablePlayerState(c.spec.ID, t.tb.ID, p)
		c.checkRoute("UpdateReserveTablePlayerState", rel, err)
	}
}

func (c *Comp) deliverReady(t *FTable, gc int, ps []*pokertable.TablePlayerState) {
	c.active++
	defer func() { c.active-- }()
	if c.own != nil {
		c.own.onRdy(t.tb.ID, gc, ps)
	} else {
		rel := c.released
		err := c.w.mgr.ReadyFirstTableGame(c.spec.ID, t.tb.ID, gc, ps)
		if err == pc.ErrManagerCompetitionNotFound {
			c.checkRoute("ReadyFirstTableGame", rel, err)
		}
	}
}

func (c *Comp) deliverAutoEnd(t *FTable) {
	c.active++
	defer func() { c.active-- }()
	c.w.log(c, "table %d auto open ends", t.ord)
	c.autoEnds++
	var err error
	if c.own != nil {
		err = c.eng.AutoGameOpenEnd(t.tb.ID)
	} else {
		err = c.w.mgr.AutoGameOpenEnd(c.spec.ID, t.tb.ID)
	}
	_ = err
}

// checkRoute: reports of a live competition are accepted, of a released one refused.
func (c *Comp) checkRoute(what string, released bool, err error) {
	if !c.created || c.own != nil {
		return
	}
	if err == nil && released && !c.releasing && c.w.resetAct == 0 {
		c.w.violate(c, "C18", "released-reachable", "%s succeeded although the competition is no longer with the manager", what)
	}
	if err != nil && !c.released && !c.releasing && c.w.resetAct == 0 {
		c.w.violate(c, "C18", "live-unreachable", "%s: %v although the competition is with the manager", what, err)
	}
}

func cloneTable(t *pokertable.Table) *pokertable.Table {
	d, _ := json.Marshal(t)
	var c pokertable.Table
	_ = json.Unmarshal(d, &c)
	return &c
}

// ---------------------------------------------------------------- running

type goRand struct{ n map[uint64]uint64 }

// Read derives uuid bytes from the calling goroutine, so that ids do not depend
// on what other competitions do.
func (r *goRand) Read(p []byte) (int, error) {
	g := simrt.GID()
	r.n[g]++
	for i := range p {
		p[i] = byte(simrt.Hash(g, r.n[g], uint64(i/8)) >> (8 * uint(i%8)))
	}
	return len(p), nil
}

var _ io.Reader = (*goRand)(nil)

// Result is what one run reports.
type Result struct {
	Viol      []Violation
	Hash      uint64
	TraceHash uint64
	SimMs     int64
	Stats     simrt.Stats
	Faults    map[string]int
	Checks    map[string]int
	States    []uint64
	Hands     int
	Settled   int
	Requests  int
	Reports   int
	Calls     int
	Exact     int
	Quiets    int
	Ended     int
	Lines     []string   `json:",omitempty"`
	Traces    [][]string `json:"-"`
	Panics    []simrt.Panic
	Livelock  string `json:",omitempty"`
	Preempts  []uint64
	Stalls    map[uint64]int64
}

// Run executes a scenario; it must be called inside a synctest bubble.
func Run(sc *Scenario, wait func()) *Result {
	rand.Seed(int64(sc.Seed))
	uuid.SetRand(&goRand{n: map[uint64]uint64{}})
	if sc.PhaseNs > 0 {
		time.Sleep(time.Duration(sc.PhaseNs))
	}
	s := simrt.New(simrt.Config{
		Seed: sc.Seed, Policy: sc.Sched.Policy, PreemptRate: sc.Sched.PreemptRate, StallRate: sc.Sched.StallRate,
		MaxPreempts: sc.Sched.MaxPreempts, HotRate: sc.Sched.HotRate, MaxHot: sc.Sched.MaxHot, Explicit: sc.Sched.Explicit, Preempts: sc.Sched.Preempts, Stalls: sc.Sched.Stalls, RandUntil: sc.Sched.RandUntil,
	})
	s.Root()
	failing := false
	for _, f := range sc.Faults {
		if f.Kind == "err" && f.Method != "UpdateBlind" && f.Method != "ReleaseTable" {
			failing = true
		}
	}
	w := &World{sc: sc, s: s, failing: failing, t0: time.Now(), byID: map[string]*Comp{}, seen: map[string]bool{}, off: map[string]bool{}, faults: map[string]int{}, states: map[uint64]struct{}{}, checks: map[string]int{}}
	for _, o := range sc.Off {
		w.off[o] = true
	}
	w.b = newBackend(w, nil)
	over := w.over
	if sc.B != nil {
		b := newBW(w)
		over = b.done
		simrt.GoNamed("main", b.main)
		s.Quiet = b.quiet
	} else {
		simrt.GoNamed("main", func() { w.main() })
		s.Quiet = w.quiet
	}
	horizon := time.Duration(sc.Horizon) * time.Second
	s.Run(horizon, wait, over)
	simMs := w.ms()
	_ = simMs
	r := &Result{Viol: w.viol, Faults: w.faults, Checks: w.checks, Hands: w.nHands, Settled: w.nSettled, Requests: w.nRequests, Reports: w.nReports, Calls: w.nCalls, Exact: w.nExact, Quiets: w.quiets}
	r.SimMs = w.endMs
	st := s.Stats()
	r.Stats = st
	r.Hash, r.TraceHash = st.Events, st.Trace
	r.Preempts, r.Stalls = st.Preempts, st.Stalls
	for k := range w.states {
		r.States = append(r.States, k)
	}
	sort.Slice(r.States, func(i, j int) bool { return r.States[i] < r.States[j] })
	r.Panics = s.Panics
	if sc.B != nil {
		// a crash inside the table service is not the repository's: the run
		// says nothing
		kept := r.Panics[:0:0]
		for _, p := range r.Panics {
			if ours(p.Stack) {
				kept = append(kept, p)
			}
		}
		if len(kept) < len(r.Panics) {
			r.Panics, r.Viol = kept, nil
			w.faults["table-service-crash"]++
		}
	}
	if s.Livelock {
		r.Livelock = s.LivelockG
	}
	for _, c := range w.comps {
		r.Traces = append(r.Traces, c.trace)
		if c.st != nil && c.ended() {
			r.Ended++
		}
	}
	r.Ended += w.bEnded
	r.Lines = w.lines
	return r
}

// over ends the run when every competition is over and the grace has passed.
func (w *World) over() bool {
	if w.abort {
		return true
	}
	w.endMs = w.ms()
	if !w.setup {
		return false
	}
	if len(w.viol) > 0 && w.stopAt.IsZero() {
		// leave a little room for follow-up evidence, then stop
		w.stopAt = time.Now().Add(2 * time.Second)
	}
	if w.stopAt.IsZero() {
		if w.doneOps < w.allOps {
			return false
		}
		for _, c := range w.comps {
			if !c.created || !c.ended() {
				return false
			}
		}
		w.stopAt = time.Now().Add(time.Duration(w.sc.Grace) * time.Second)
	}
	return !time.Now().Before(w.stopAt)
}

// main sets the world up and starts the clients.
func (w *World) main() {
	for i := range w.sc.Comps {
		sp := &w.sc.Comps[i]
		c := &Comp{w: w, i: i, key: simrt.HashStr(sp.ID), spec: sp, tables: map[string]*FTable{}, calls: map[string]int{}, sinces: map[string]time.Time{}, redeems: map[string][]int64{}, brkReady: map[int]map[*FTable]int{}, backGID: map[int64]int{}, earlyHands: map[string]*earlyHand{}, buyinN: map[string]int{}, quitRace: map[string]bool{}, heard: map[string]pc.CompetitionPlayer{}, notified: map[string][]int{}, twice: map[string]bool{}, trig: map[string][]chan struct{}{}, nests: map[*nestRec]bool{}}
		c.book.init()
		w.comps = append(w.comps, c)
		w.byID[sp.ID] = c
	}
	w.mgr = pc.NewManager(w.b)
	for _, c := range w.comps {
		c := c
		if c.spec.CreateAt == 0 {
			c.create()
		} else {
			simrt.GoNamed("create:"+c.spec.ID, func() {
				time.Sleep(time.Duration(c.spec.CreateAt) * time.Millisecond)
				simrt.Gate()
				c.create()
			})
		}
	}
	w.allOps = len(w.sc.Ops)
	for i := range w.sc.Ops {
		op := &w.sc.Ops[i]
		n := 1 + op.Dup
		if op.Dup > 0 {
			w.allOps += op.Dup
		}
		for k := 0; k < n; k++ {
			k := k
			simrt.GoNamed(fmt.Sprintf("op:%s:%d", op.ID, k), func() {
				time.Sleep(time.Duration(op.At+k*op.DupGap) * time.Millisecond)
				simrt.Gate()
				if op.When != "" {
					w.waitFor(op)
				}
				if op.When != "" || op.Dup > 0 && op.DupGap <= 1 {
					simrt.Hot(func() { w.runOp(op) })
				} else {
					w.runOp(op)
				}
				w.doneOps++
			})
		}
	}
	simrt.GoNamed("heartbeat", func() {
		for {
			time.Sleep(5 * time.Second)
			simrt.Gate()
		}
	})
	w.setup = true
}

// waitFor holds a request back until the event it is to meet.
func (w *World) waitFor(op *Op) {
	if w.s.Dead() || op.Comp >= len(w.comps) || !w.comps[op.Comp].created {
		return
	}
	c := w.comps[op.Comp]
	if op.When == "level" {
		for _, at := range c.st.State.BlindState.EndAts {
			if d := time.Until(time.Unix(at, 0)); d > 0 {
				time.Sleep(min(d, 2*time.Minute))
				simrt.Gate()
				return
			}
		}
		return
	}
	ch := make(chan struct{})
	c.trig[op.When] = append(c.trig[op.When], ch)
	select {
	case <-ch:
	case <-time.After(2 * time.Minute):
	}
	simrt.Gate()
}

// aimsAt reports whether a request of the scenario is to meet that event.
func (c *Comp) aimsAt(what string) bool {
	for i := range c.w.sc.Ops {
		if op := &c.w.sc.Ops[i]; op.Comp == c.i && op.When == what {
			return true
		}
	}
	return false
}

// armWindow lets the end of the re-buy window of players who busted just now
// be met by requests.
func (c *Comp) armWindow(t *FTable) {
	for _, ps := range t.tb.State.PlayerStates {
		if ps.Bankroll == 0 && ps.IsParticipated {
			simrt.GoNamed("window", func() {
				time.Sleep(time.Duration(c.meta.ReBuySetting.WaitingTime) * time.Second)
				simrt.Gate()
				simrt.Hot(func() { c.fire("window") })
			})
			return
		}
	}
}

// fire submits the requests held back until this event; it reports whether
// there are any.
func (c *Comp) fire(what string) bool {
	chs := c.trig[what]
	if len(chs) == 0 {
		return false
	}
	delete(c.trig, what)
	for _, ch := range chs {
		close(ch)
	}
	simrt.Switch()
	return true
}

func (c *Comp) create() {
	w := c.w
	sp := c.spec
	now := time.Now()
	set := pc.CompetitionSetting{CompetitionID: sp.ID, Meta: copyMeta(sp.Meta), StartAt: -1, DisableAt: now.Unix() + int64(sp.DisableIn)}
	if sp.StartIn >= 0 {
		set.StartAt = now.Unix() + int64(sp.StartIn)
	}
	for k := 0; k < sp.Tables; k++ {
		set.TableSettings = append(set.TableSettings, pc.TableSetting{TableID: fmt.Sprintf("%s-T%d", sp.ID, k)})
	}
	c.startSet, c.disableAt = set.StartAt, set.DisableAt
	c.meta = set.Meta
	c.createdAt = now
	c.initLevel = sp.Meta.Blind.InitialLevel
	c.active++
	if sp.Direct {
		c.own = newBackend(w, c)
		e := pc.NewCompetitionEngine(pc.WithTableManagerBackend(c.own), pc.WithTableOptions(pokertable.NewTableEngineOptions()))
		e.OnCompetitionUpdated(c.onUpdate)
		e.OnCompetitionErrorUpdated(c.onError)
		e.OnCompetitionPlayerUpdated(c.onPlayer)
		e.OnCompetitionFinalPlayerRankUpdated(c.onFinalRank)
		e.OnCompetitionStateUpdated(c.onState)
		e.OnAdvancePlayerCountUpdated(c.onAdvance)
		e.OnCompetitionPlayerCashOut(c.onCashOut)
		e.OnTableCreated(func(*pokertable.Table) {})
		c.eng = e
		st, err := e.CreateCompetition(set)
		c.active--
		if err != nil {
			// while the table service was slow a configured time may have passed
			if time.Now().Equal(now) {
				w.violate(c, "C18", "create-failed", "CreateCompetition: %v", err)
			}
			return
		}
		c.st = st
	} else {
		opt := pc.NewDefaultCompetitionEngineOptions()
		opt.OnCompetitionUpdated = c.onUpdate
		opt.OnCompetitionErrorUpdated = c.onError
		opt.OnCompetitionPlayerUpdated = c.onPlayer
		opt.OnCompetitionFinalPlayerRankUpdated = c.onFinalRank
		opt.OnCompetitionStateUpdated = c.onState
		opt.OnAdvancePlayerCountUpdated = c.onAdvance
		opt.OnCompetitionPlayerCashOut = c.onCashOut
		st, err := w.mgr.CreateCompetition(set, opt)
		c.active--
		if err != nil {
			// while the table service was slow a configured time may have passed
			if time.Now().Equal(now) {
				w.violate(c, "C18", "create-failed", "CreateCompetition: %v", err)
			}
			return
		}
		c.st = st
		e, err := w.mgr.GetCompetitionEngine(sp.ID)
		if err != nil {
			w.violate(c, "C18", "created-unreachable", "GetCompetitionEngine after CreateCompetition: %v", err)
			return
		}
		c.eng = e
	}
	c.created = true
	w.log(c, "created mode=%s start=%d disable=%d", sp.Meta.Mode, sp.StartIn, sp.DisableIn)
}

func copyMeta(m pc.CompetitionMeta) pc.CompetitionMeta {
	d, _ := json.Marshal(m)
	var r pc.CompetitionMeta
	_ = json.Unmarshal(d, &r)
	return r
}

func (c *Comp) ended() bool {
	switch c.st.State.Status {
	case pc.CompetitionStateStatus_End, pc.CompetitionStateStatus_AutoEnd, pc.CompetitionStateStatus_ForceEnd:
		return true
	}
	return false
}

func (c *Comp) player(id string) *pc.CompetitionPlayer {
	if c.st == nil {
		return nil
	}
	for _, p := range c.st.State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}

// queued is the set of players the seating regulator holds in its queue; ok is
// false when it cannot be inspected.
func (c *Comp) queued() (map[string]bool, bool) {
	q := map[string]bool{}
	v := reflect.ValueOf(c.eng)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return q, false
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Interface && !f.IsNil() && f.Type().String() == "regulator.Regulator" {
			r := f.Elem()
			if r.Kind() == reflect.Ptr {
				r = r.Elem()
			}
			wq := r.FieldByName("waitingQueue")
			if !wq.IsValid() {
				return q, false
			}
			for k := 0; k < wq.Len(); k++ {
				q[wq.Index(k).String()] = true
			}
			return q, true
		}
	}
	return q, false
}
