// Package harness is the simulated world around pokercompetition: a scenario
// generator, a modelled table service, clients, a reference model (the book)
// and the oracles that decide the listed properties.
package harness

import (
	"verif/simrt"

	pc "github.com/weedbox/pokercompetition"
)

// Scenario is the complete input of one simulated run. A run is a pure
// function of it.
type Scenario struct {
	Seed    uint64
	Profile string
	World   string // "A": modelled table service, "B": real table + game engines
	PhaseNs int64  // sub-second phase of the clock at creation
	Comps   []CompSpec
	B       *SpecB `json:",omitempty"`
	Ops     []Op
	Faults  []Fault
	Sched   SchedSpec
	Horizon int      // simulated seconds
	Grace   int      // simulated seconds the run continues after everything ended
	Off     []string `json:",omitempty"` // reactive client behaviours switched off (minimiser)
	MaxHand int      `json:",omitempty"`
}

type SchedSpec struct {
	Policy      int
	SwitchPct   int              `json:",omitempty"` // percent of table-service requests at which other activities may run first
	PreemptRate uint64           `json:",omitempty"`
	StallRate   uint64           `json:",omitempty"`
	MaxPreempts int              `json:",omitempty"`
	HotRate     uint64           `json:",omitempty"`
	MaxHot      int              `json:",omitempty"`
	Explicit    bool             `json:",omitempty"`
	Preempts    []uint64         `json:",omitempty"`
	Stalls      map[uint64]int64 `json:",omitempty"`
	RandUntil   uint64           `json:",omitempty"`
}

type CompSpec struct {
	ID        string
	Meta      pc.CompetitionMeta
	StartIn   int // seconds after creation, -1: unset
	DisableIn int
	CreateAt  int // ms
	Tables    int // number of pre-created tables (CT/cash)
	Players   int // roster size
	Rebuy     RebuyPlan
	Hands     HandPlan
	JoinSlow  int // percent of players that sit down only by time-out
	PauseEff  bool
	LivePtr   bool
	AdvanceN  int
	Direct    bool   `json:",omitempty"` // engine used without a manager
	World     string `json:",omitempty"`
	Bots      int    `json:",omitempty"`
}

type RebuyPlan struct {
	Chips               int64
	Soon, Edge, Late, X int // weights: soon, around the deadline, late, never
}

type HandPlan struct {
	MinMs, MaxMs        int
	Walk, Normal, AllIn int // weights
	Unit                int64
	SitOut              int // percent chance a newcomer sits out one hand
	GameContinueMs      int
	AllInPlayers        int // max players in an all-in
	Mid                 bool
	Fold                bool
}

type Op struct {
	ID     string
	At     int // ms after world start
	Comp   int
	Kind   string
	Player string `json:",omitempty"`
	Pick   string `json:",omitempty"` // resolved at run time: seated, busted, any, knocked, unknown
	N      uint64 `json:",omitempty"` // selector for Pick
	Chips  int64  `json:",omitempty"`
	Unit   int    `json:",omitempty"`
	Arg    int    `json:",omitempty"`
	Str    string `json:",omitempty"`
	Dup    int    `json:",omitempty"` // submitted this many extra times
	DupGap int    `json:",omitempty"` // ms between the submissions
	When   string `json:",omitempty"` // submitted at the first such event after At: settled, level, or the name of a table request
}

// Fault is one injected fault of the table service or the delivery path.
type Fault struct {
	ID     string
	Kind   string // slow-before slow-after dup stale-dup err slow-deliver
	Comp   int
	Method string // backend method or "settled"/"update"
	Nth    int    // nth call of that method for that competition (1-based)
	Ms     int
}

// rng is a tiny deterministic generator used only by the scenario generator.
type rng struct{ s uint64 }

func newRng(xs ...uint64) *rng { return &rng{simrt.Hash(xs...)} }
func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return simrt.Hash(r.s)
}
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u() % uint64(n))
}
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }
func (r *rng) p(pct int) bool  { return r.n(100) < pct }
func (r *rng) pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}
func (r *rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func (r *rng) i64(xs ...int64) int64 { return xs[r.n(len(xs))] }
func (r *rng) ii(xs ...int) int      { return xs[r.n(len(xs))] }
