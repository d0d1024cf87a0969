package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"verif/simrt"
)

// World B: the competition, the native table service, the real table and game
// engines and the actors in one process.  Nothing is modelled; the simulator
// owns the clock, the schedule, the deals, the bots' randomness and the humans.

type SpecB struct {
	Meta      pc.CompetitionMeta
	StartIn   int // seconds, -1: when enough players are in
	DisableIn int
	Continue  int // seconds between hands
	Open      int // seconds players have to confirm a hand
	Actors    []ActorB
	Direct    bool // the actors' table updates come from the table engine, as in the example wiring
}

type ActorB struct {
	ID     string
	Kind   string // bot, humanized, player
	At     int    // ms until the buy-in
	Chips  int64
	JoinMs int // ms until the player sits down, -1: only by time-out
	Idle   int // percent of requests a player lets pass
	Wrong  int // percent of requests answered by a refused action
	MinMs  int
	MaxMs  int
	Auto   int // percent of requests at which the player toggles the auto mode
	Resume int // percent chance to come back when suspended
	Thresh int
	ReBuy  int // times the player buys in again after busting
	Deaf   int // percent of hands whose state updates the actor does not receive at once but a moment later
	PubMs  int // ms it takes to publish a wager action
}

type bReq struct {
	upd     int64
	gameID  string
	at      time.Time
	acts    []string
	event   string
	done    bool
	auto    bool // the player was in auto mode when asked
	timed   bool // an action time applies
	answers int
}

type bActor struct {
	spec     *ActorB
	b        *BW
	a        actor.Actor
	pr       *actor.PlayerRunner
	lastUpd  int64
	lastGame string
	req      *bReq
	nReq     int
	human    bool // an action of the person is being carried out
	suspend  bool
	missed   int // requests in a row the person let pass
	joined   bool
	buys     int
	paid     int64
	inCall   int
	unrep    map[string][]int64 // wager actions carried out and not reported yet, with their chips (-1: not known)
}

type BW struct {
	w       *World
	spec    *SpecB
	tm      pokertable.Manager
	mgr     pc.Manager
	be      *bBackend
	eng     pc.CompetitionEngine
	st      *pc.Competition
	te      pokertable.TableEngine
	actors  []*bActor
	byID    map[string]*bActor
	table   *pokertable.Table // last update
	gameID  string
	hands   int
	openAt  time.Time
	moved   time.Time // last progress of the hand in play
	lastGS  int64
	settled map[string]bool
	reports int // reports inside the competition
	buys    int // purchases under way
	okSince time.Time
	endAt   time.Time
	nAct    int
	startAt time.Time
	over    bool
	offAt   time.Time
	locked  map[uint64]string // goroutines inside a call the table service serves with its lock held
	nestIn  string
	nested  string          // such a call in which an actor's action waits for that lock
	last    map[string]bool // who played the last hand, nil once the competition set up the next one
	overdue time.Time
}

// bBackend hands the native table service through, looking at its reports.
type bBackend struct {
	pc.TableManagerBackend
	b *BW
}

func (x *bBackend) OnTableUpdated(fn func(t *pokertable.Table)) {
	x.TableManagerBackend.OnTableUpdated(func(t *pokertable.Table) {
		b := x.b
		b.seen(t)
		if !b.spec.Direct {
			b.feed(t)
		}
		simrt.NoPreempt(func() { b.reports++ })
		fn(t)
		simrt.NoPreempt(func() { b.reports-- })
	})
}

func (x *bBackend) SetUpTableGame(id string, gc int, parts map[string]int) error {
	simrt.NoPreempt(func() { x.b.last = nil })
	x.b.w.log(nil, "SetUpTableGame hand %d with %d", gc, len(parts))
	return x.TableManagerBackend.SetUpTableGame(id, gc, parts)
}

func (x *bBackend) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	x.b.w.log(nil, "UpdateBlind level %d", level)
	picks := x.b.w.s.Picks
	err := x.TableManagerBackend.UpdateBlind(id, level, ante, dealer, sb, bb)
	x.after(picks, err, "update-blind", func(t *pokertable.Table) string {
		if s := t.State.BlindState; s == nil || s.Level != level || s.Ante != ante || s.Dealer != dealer || s.SB != sb || s.BB != bb {
			return fmt.Sprintf("the table was told level %d %d/%d/%d/%d and has %+v", level, ante, dealer, sb, bb, s)
		}
		return ""
	})
	return err
}

func (x *bBackend) StartTableGame(id string) error {
	x.b.w.log(nil, "StartTableGame")
	picks := x.b.w.s.Picks
	err := x.TableManagerBackend.StartTableGame(id)
	x.after(picks, err, "start-table", func(t *pokertable.Table) string {
		if t.State.StartAt == pokertable.UnsetValue {
			return "the table was told to start and has not"
		}
		return ""
	})
	return err
}

func (x *bBackend) CloseTable(id string) error {
	x.b.w.log(nil, "CloseTable")
	picks := x.b.w.s.Picks
	err := x.TableManagerBackend.CloseTable(id)
	x.after(picks, err, "close-table", func(t *pokertable.Table) string {
		if t.State.Status != pokertable.TableStateStatus_TableClosed {
			return fmt.Sprintf("the table was told to close and is %s", t.State.Status)
		}
		return ""
	})
	return err
}

// The table service tells of these while it holds its lock.

func (x *bBackend) UpdateTablePlayers(id string, in []pokertable.JoinPlayer, out []string) (map[string]int, error) {
	defer x.b.lock("UpdateTablePlayers")()
	return x.TableManagerBackend.UpdateTablePlayers(id, in, out)
}

func (x *bBackend) PlayerReserve(id string, in pokertable.JoinPlayer) error {
	picks := x.b.w.s.Picks
	was := int64(0)
	if x.b.te != nil {
		if _, ps := player(x.b.te.GetTable(), in.PlayerID); ps != nil {
			was = ps.Bankroll
		}
	}
	done := x.b.lock("PlayerReserve")
	err := x.TableManagerBackend.PlayerReserve(id, in)
	done()
	x.after(picks, err, "reserve", func(t *pokertable.Table) string {
		_, ps := player(t, in.PlayerID)
		if ps == nil {
			return in.PlayerID + " was seated and is not at the table"
		}
		if ps.Bankroll != was+in.RedeemChips {
			return fmt.Sprintf("%s came with %d to %d and has %d", in.PlayerID, in.RedeemChips, was, ps.Bankroll)
		}
		return ""
	})
	return err
}

func (x *bBackend) PlayerRedeemChips(id string, in pokertable.JoinPlayer) error {
	picks := x.b.w.s.Picks
	was := int64(0)
	if _, ps := player(x.b.te.GetTable(), in.PlayerID); ps != nil {
		was = ps.Bankroll
	}
	err := x.TableManagerBackend.PlayerRedeemChips(id, in)
	x.after(picks, err, "redeem", func(t *pokertable.Table) string {
		if _, ps := player(t, in.PlayerID); ps == nil || ps.Bankroll != was+in.RedeemChips {
			return fmt.Sprintf("%s added %d to %d at the table: %+v", in.PlayerID, in.RedeemChips, was, ps)
		}
		return ""
	})
	return err
}

// after judges what a call did to the table, if nothing else ran meanwhile.
func (x *bBackend) after(picks uint64, err error, key string, f func(t *pokertable.Table) string) {
	simrt.NoPreempt(func() {
		if err != nil || x.b.te == nil || x.b.w.s.Picks != picks {
			return
		}
		x.b.w.checks["C22"]++
		if s := f(x.b.te.GetTable()); s != "" {
			x.b.w.violate(nil, "C22", key, "%s", s)
		}
	})
}

func player(t *pokertable.Table, id string) (int, *pokertable.TablePlayerState) {
	for i, ps := range t.State.PlayerStates {
		if ps.PlayerID == id {
			return i, ps
		}
	}
	return -1, nil
}

func (x *bBackend) PlayersLeave(id string, out []string) error {
	picks := x.b.w.s.Picks
	done := x.b.lock("PlayersLeave")
	err := x.TableManagerBackend.PlayersLeave(id, out)
	done()
	x.after(picks, err, "leave", func(t *pokertable.Table) string {
		for _, p := range out {
			if _, ps := player(t, p); ps != nil {
				return p + " left and is still at the table"
			}
		}
		return ""
	})
	return err
}

func (b *BW) lock(name string) func() {
	g := simrt.GID()
	simrt.NoPreempt(func() { b.locked[g] = name })
	return func() { simrt.NoPreempt(func() { delete(b.locked, g) }) }
}

// breach reports a violation, under the name of the deadlock if it comes of
// one: an actor answering from within a call that holds the table's lock.
func (b *BW) breach(prop, key, f string, a ...interface{}) {
	if b.nested != "" {
		b.w.violate(nil, prop, "nested-action", "%s from within %s waits for the table's lock forever: "+f, append([]interface{}{b.nested, b.nestIn}, a...)...)
		return
	}
	b.w.violate(nil, prop, key, f, a...)
}

// bAdapter is the actors' way to the table, looking at what they do.
type bAdapter struct {
	actor.Adapter
	p *bActor
}

func (x *bAdapter) Ready(id string) error {
	return x.p.act("ready", 0, func() error { return x.Adapter.Ready(id) })
}
func (x *bAdapter) Pass(id string) error {
	return x.p.act("pass", 0, func() error { return x.Adapter.Pass(id) })
}
func (x *bAdapter) Pay(id string, c int64) error {
	return x.p.act("pay", c, func() error { return x.Adapter.Pay(id, c) })
}
func (x *bAdapter) Check(id string) error {
	return x.p.act("check", 0, func() error { return x.Adapter.Check(id) })
}
func (x *bAdapter) Call(id string) error {
	return x.p.act("call", 0, func() error { return x.Adapter.Call(id) })
}
func (x *bAdapter) Fold(id string) error {
	return x.p.act("fold", 0, func() error { return x.Adapter.Fold(id) })
}
func (x *bAdapter) Allin(id string) error {
	return x.p.act("allin", 0, func() error { return x.Adapter.Allin(id) })
}
func (x *bAdapter) Bet(id string, c int64) error {
	return x.p.act("bet", c, func() error { return x.Adapter.Bet(id, c) })
}
func (x *bAdapter) Raise(id string, c int64) error {
	return x.p.act("raise", c, func() error { return x.Adapter.Raise(id, c) })
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// act carries an action out and judges it.
func (p *bActor) act(name string, chips int64, f func() error) error {
	b := p.b
	w := b.w
	var r *bReq
	human := p.human
	picks := w.s.NPreempts()
	simrt.NoPreempt(func() {
		r = p.req
		b.nAct++
		p.inCall++
		w.checks["C21"]++
		if human || r == nil {
			return
		}
		if p.spec.Kind == "player" && r.timed {
			el := time.Since(r.at)
			due := time.Duration(b.spec.Meta.ActionTime) * time.Second
			switch {
			case r.done:
				w.violate(nil, "C21", "overridden", "%s answered the request of %s but an automatic %s followed %s after it", p.spec.ID, r.event, name, el)
			case !r.auto && !p.suspend && el < due:
				w.violate(nil, "C21", "too-soon", "automatic %s for %s %s after being asked, the action time is %s", name, p.spec.ID, el, due)
			}
			want := "fold"
			if has(r.acts, "ready") {
				want = "ready"
			} else if has(r.acts, "check") {
				want = "check"
			}
			if name != want {
				w.violate(nil, "C21", "wrong-auto", "automatic %s for %s who may %v", name, p.spec.ID, r.acts)
			}
		}
		if !has(r.acts, name) && !r.done {
			w.violate(nil, "C21", "not-allowed", "%s of %s who may only %v", name, p.spec.ID, r.acts)
		}
	})
	if r != nil && !human && r.gameID == p.lastGame {
		if g := b.gs(); g != nil && !r.done {
			b.amount(p, g, name, chips)
		}
	}
	worth := chips
	if name == "call" || name == "allin" {
		worth = -1
		simrt.NoPreempt(func() {
			if g := b.gs(); g != nil && r != nil && g.UpdatedAt == r.upd {
				if gi := b.te.GetTable().FindGamePlayerIdx(p.spec.ID); gi >= 0 && g.GetPlayer(gi) != nil {
					if worth = g.GetPlayer(gi).StackSize; name == "call" {
						worth = g.Status.CurrentWager - g.GetPlayer(gi).Wager
					}
				}
			}
		})
	}
	wasDone := r != nil && r.done
	if r != nil && has(r.acts, name) {
		r.done = true // what it causes may already ask again
	}
	g := simrt.GID()
	simrt.NoPreempt(func() {
		if in := b.locked[g]; in != "" {
			b.nested, b.nestIn = p.spec.ID+"'s "+name, in
		}
	})
	err := f()
	simrt.NoPreempt(func() {
		if b.locked[g] != "" {
			b.nested = ""
		}
		p.inCall--
		w.log(nil, "%s %s %d auto=%v -> %v", p.spec.ID, name, chips, !human, err)
		if err != nil {
			if r != nil && !wasDone && p.req == r {
				r.done = false
			}
			if !human && r != nil && !wasDone && p.req == r && w.s.NPreempts() == picks && b.gs() != nil && b.gs().UpdatedAt == r.upd {
				w.violate(nil, "C21", "illegal", "the automatic %s(%d) of %s was refused (%v), allowed were %v", name, chips, p.spec.ID, err, r.acts)
			}
			return
		}
		if name != "ready" && name != "pass" && name != "pay" {
			p.unrep[name] = append(p.unrep[name], worth)
		}
		if r == nil {
			return
		}
		r.answers++
		if human || !r.timed {
			if human {
				p.missed = 0
			}
		} else if !r.auto && p.spec.Kind == "player" {
			p.missed++
		}
	})
	return err
}

// amount: a bet or raise must be one the game allows.
func (b *BW) amount(p *bActor, g *pokerface.GameState, name string, chips int64) {
	gi := b.te.GetTable().FindGamePlayerIdx(p.spec.ID)
	if gi < 0 {
		return
	}
	pl := g.GetPlayer(gi)
	if pl == nil {
		return
	}
	switch name {
	case "bet":
		if chips > pl.InitialStackSize || chips < g.Status.MiniBet && chips != pl.InitialStackSize || chips <= 0 {
			b.w.violate(nil, "C21", "amount", "%s bets %d with a stack of %d and a minimum of %d", p.spec.ID, chips, pl.InitialStackSize, g.Status.MiniBet)
		}
	case "raise":
		least := g.Status.CurrentWager + g.Status.PreviousRaiseSize
		if chips > pl.InitialStackSize || chips < least && chips != pl.InitialStackSize {
			b.w.violate(nil, "C21", "amount", "%s raises to %d with a stack of %d and at least %d needed", p.spec.ID, chips, pl.InitialStackSize, least)
		}
	case "pay":
		if chips < 0 || chips > g.Meta.Ante && chips > g.Meta.Blind.SB && chips > g.Meta.Blind.BB && chips > g.Meta.Blind.Dealer {
			b.w.violate(nil, "C21", "amount", "%s pays %d", p.spec.ID, chips)
		}
	}
}

func (b *BW) gs() *pokerface.GameState {
	if b.te == nil {
		return nil
	}
	t := b.te.GetTable()
	if t == nil {
		return nil
	}
	return t.State.GameState
}

// seen records what a table update says.
func (b *BW) seen(t *pokertable.Table) {
	simrt.NoPreempt(func() {
		w := b.w
		w.nReports++
		b.table = t
		if gs := t.State.GameState; gs != nil && gs.UpdatedAt > b.lastGS {
			b.lastGS = gs.UpdatedAt
			b.moved = time.Now()
		}
		switch t.State.Status {
		case pokertable.TableStateStatus_TableGameOpened:
			b.openAt, b.moved = time.Now(), time.Now()
			b.gameID = ""
			b.okSince, b.overdue = time.Time{}, time.Time{}
			b.hands++
			w.nHands++
			w.log(nil, "hand %d opened", t.State.GameCount)
		case pokertable.TableStateStatus_TableGamePlaying:
			if g := t.State.GameState; g != nil && g.GameID != b.gameID {
				b.gameID = g.GameID
			}
		case pokertable.TableStateStatus_TableGameSettled:
			if g := t.State.GameState; g != nil && !b.settled[g.GameID] {
				b.settled[g.GameID] = true
				w.nSettled++
				b.openAt = time.Time{}
				b.last = map[string]bool{}
				for _, i := range t.State.GamePlayerIndexes {
					if i >= 0 && i < len(t.State.PlayerStates) && t.State.PlayerStates[i].Bankroll > 0 {
						b.last[t.State.PlayerStates[i].PlayerID] = true
					}
				}
				s := ""
				sum := int64(0)
				for _, ps := range t.State.PlayerStates {
					s += fmt.Sprintf(" %s=%d", ps.PlayerID, ps.Bankroll)
					sum += ps.Bankroll
				}
				w.log(nil, "hand %d settled%s", t.State.GameCount, s)
				for _, ps := range t.State.PlayerStates {
					if p := b.byID[ps.PlayerID]; p != nil && ps.Bankroll == 0 && p.buys > 0 && p.buys <= p.spec.ReBuy {
						n := p.buys
						simrt.GoNamed("rebuy:"+p.spec.ID, func() {
							rg := newRng(w.sc.Seed, simrt.HashStr(p.spec.ID), uint64(n), 99)
							time.Sleep(time.Duration(600+rg.n(b.spec.Meta.ReBuySetting.WaitingTime*1100)) * time.Millisecond)
							simrt.Gate()
							p.buyIn()
						})
					}
				}
				b.sumCheck(sum)
			}
		}
		w.states[simrt.Hash(simrt.HashStr(string(t.State.Status)), uint64(len(t.State.PlayerStates)), uint64(t.State.BlindState.Level+2))] = struct{}{}
	})
}

// sumCheck: no chip is lost or made by the hands.
func (b *BW) sumCheck(sum int64) {
	var paid int64
	for _, p := range b.actors {
		paid += p.paid
	}
	b.w.checks["C22"]++
	gone := int64(0)
	if sum > paid || b.buys == 0 && sum != paid-gone {
		b.w.violate(nil, "C22", "chips", "the players at the table hold %d chips after the hand, %d were bought", sum, paid)
	}
}

// feed hands a table update to the actors.
func (b *BW) feed(t *pokertable.Table) {
	for _, p := range b.actors {
		if p.a != nil {
			p.deliver(t)
		}
	}
}

func (p *bActor) deliver(t *pokertable.Table) {
	var ask *bReq
	simrt.NoPreempt(func() {
		gs := t.State.GameState
		in := false
		for _, ps := range t.State.PlayerStates {
			in = in || ps.PlayerID == p.spec.ID
		}
		if gs == nil {
			return
		}
		if p.spec.Kind != "player" && gs.GameID != p.lastGame {
			p.lastUpd = 0
		}
		if p.lastUpd >= gs.UpdatedAt {
			return
		}
		p.lastGame = gs.GameID
		p.lastUpd = gs.UpdatedAt
		if !in || t.State.Status != pokertable.TableStateStatus_TableGamePlaying {
			return
		}
		gi := t.GamePlayerIndex(p.spec.ID)
		if gi < 0 {
			return
		}
		pl := gs.GetPlayer(gi)
		if pl == nil || len(pl.AllowedActions) == 0 {
			return
		}
		if p.req != nil && !p.req.done && p.req.timed && !p.req.auto {
			p.b.w.log(nil, "%s is asked again", p.spec.ID)
		}
		r := &bReq{upd: gs.UpdatedAt, gameID: gs.GameID, at: time.Now(), acts: append([]string(nil), pl.AllowedActions...), event: gs.Status.CurrentEvent, auto: p.suspend}
		r.timed = !has(r.acts, "pass") && !has(r.acts, "pay")
		p.req = r
		p.nReq++
		ask = r
		p.b.w.log(nil, "%s is asked to %v in %s auto=%v", p.spec.ID, r.acts, r.event, r.auto)
	})
	if err := p.a.GetTable().UpdateTableState(t); err != nil {
		p.b.w.log(nil, "%s runner: %v", p.spec.ID, err)
	}
	if ask != nil && p.spec.Kind == "player" && ask.timed && !ask.done {
		p.think(ask)
	}
}

// think: what the person does about a request.
func (p *bActor) think(r *bReq) {
	b := p.b
	rg := newRng(b.w.sc.Seed, simrt.HashStr(p.spec.ID), uint64(p.nReq), 77)
	at := b.spec.Meta.ActionTime * 1000
	if p.suspend {
		if rg.p(p.spec.Resume) {
			simrt.GoNamed("resume:"+p.spec.ID, func() {
				time.Sleep(time.Duration(rg.in(1, 4000)) * time.Millisecond)
				simrt.Gate()
				b.w.log(nil, "%s resumes", p.spec.ID)
				p.pr.AutoMode(false)
			})
		}
		return
	}
	if rg.p(p.spec.Auto) {
		simrt.NoPreempt(func() { p.b.w.faults["auto-mode-toggled"]++ })
		simrt.GoNamed("auto:"+p.spec.ID, func() {
			time.Sleep(time.Duration(rg.in(1, at)) * time.Millisecond)
			simrt.Gate()
			b.w.log(nil, "%s switches to auto mode", p.spec.ID)
			p.pr.AutoMode(true)
		})
	}
	if rg.p(p.spec.Wrong) {
		simrt.GoNamed("wrong:"+p.spec.ID, func() {
			time.Sleep(time.Duration(rg.in(1, at-500)) * time.Millisecond)
			simrt.Gate()
			p.wrong(r, rg)
		})
	}
	if rg.p(p.spec.Idle) {
		b := p.b
		simrt.NoPreempt(func() { b.w.faults["person-away"]++ })
		return
	}
	d := rg.in(p.spec.MinMs, p.spec.MaxMs)
	if d >= at-200 {
		d = at - 200 - rg.n(500)
	}
	if d < 0 {
		d = 0
	}
	simrt.GoNamed("person:"+p.spec.ID, func() {
		time.Sleep(time.Duration(d) * time.Millisecond)
		simrt.Gate()
		p.answer(r, rg)
	})
}

// wrong: an action that is not allowed.
func (p *bActor) wrong(r *bReq, rg *rng) {
	if r.done || p.req != r || has(r.acts, "ready") {
		return
	}
	p.human = true
	defer func() { p.human = false }()
	all := []string{"check", "bet", "call", "raise", "ready"}
	k := all[rg.n(len(all))]
	if has(r.acts, k) {
		return
	}
	simrt.NoPreempt(func() { p.b.w.faults["refused-action"]++ })
	p.do(k, 10)
}

func (p *bActor) do(k string, chips int64) {
	var err error
	switch k {
	case "ready":
		err = p.pr.Ready()
	case "check":
		err = p.pr.Check()
	case "call":
		err = p.pr.Call()
	case "fold":
		err = p.pr.Fold()
	case "allin":
		err = p.pr.Allin()
	case "bet":
		err = p.pr.Bet(chips)
	case "raise":
		err = p.pr.Raise(chips)
	}
	_ = err
}

// answer: a person who acts in time.
func (p *bActor) answer(r *bReq, rg *rng) {
	b := p.b
	if r.done || p.req != r {
		return
	}
	gs := b.gs()
	if gs == nil || gs.GameID != r.gameID {
		return
	}
	gi := b.te.GetTable().FindGamePlayerIdx(p.spec.ID)
	if gi < 0 {
		return
	}
	pl := gs.GetPlayer(gi)
	if pl == nil {
		return
	}
	acts := r.acts
	k := acts[rg.n(len(acts))]
	if k == "allin" && !rg.p(25) {
		k = acts[rg.n(len(acts))]
	}
	if k == "fold" && has(acts, "check") {
		k = "check"
	}
	chips := int64(0)
	switch k {
	case "bet":
		chips = gs.Status.MiniBet
		if chips > pl.InitialStackSize {
			chips = pl.InitialStackSize
		}
		if pl.InitialStackSize > chips {
			chips += int64(rg.n(int(pl.InitialStackSize-chips)/2 + 1))
		}
	case "raise":
		chips = gs.Status.CurrentWager + gs.Status.PreviousRaiseSize
		if chips >= pl.InitialStackSize {
			chips = pl.InitialStackSize
		}
	}
	p.human = true
	defer func() { p.human = false }()
	p.do(k, chips)
}

// ------------------------------------------------------------------ life

func (b *BW) main() {
	w := b.w
	sp := b.spec
	b.tm = pokertable.NewManager()
	b.be = &bBackend{TableManagerBackend: pc.NewNativeTableManagerBackend(b.tm), b: b}
	b.mgr = pc.NewManager(b.be)
	o := pokertable.NewTableEngineOptions()
	o.GameContinueInterval, o.OpenGameTimeout = sp.Continue, sp.Open
	b.mgr.SetTableEngineOptions(o)
	for i := range sp.Actors {
		p := &bActor{spec: &sp.Actors[i], b: b, unrep: map[string][]int64{}}
		b.actors = append(b.actors, p)
		b.byID[p.spec.ID] = p
	}
	opt := pc.NewDefaultCompetitionEngineOptions()
	opt.OnCompetitionUpdated = func(c *pc.Competition) {
		if b.st == nil {
			b.st = c
		}
		if b.ended() && b.endAt.IsZero() {
			b.endAt = time.Now()
			w.bEnded++
			w.log(nil, "competition ended: %s", c.State.Status)
		}
	}
	opt.OnCompetitionErrorUpdated = func(c *pc.Competition, err error) { w.log(nil, "error: %v", err) }
	now := time.Now()
	set := pc.CompetitionSetting{CompetitionID: "B", Meta: copyMeta(sp.Meta), StartAt: -1, DisableAt: now.Unix() + int64(sp.DisableIn), TableSettings: []pc.TableSetting{{TableID: "B-T0"}}}
	if sp.StartIn >= 0 {
		set.StartAt = now.Unix() + int64(sp.StartIn)
	}
	st, err := b.mgr.CreateCompetition(set, opt)
	if err != nil {
		w.violate(nil, "C22", "create", "CreateCompetition: %v", err)
		b.over = true
		return
	}
	b.st = st
	b.eng, _ = b.mgr.GetCompetitionEngine("B")
	b.te, err = b.tm.GetTableEngine(st.State.Tables[0].ID)
	if err != nil {
		w.violate(nil, "C22", "create", "the table is not known to the table service: %v", err)
		b.over = true
		return
	}
	b.te.OnAutoGameOpenEnd(func(cid, tid string) {
		w.log(nil, "no further hand: time is up")
		b.mgr.AutoGameOpenEnd(cid, tid)
	})
	b.te.OnTableErrorUpdated(func(t *pokertable.Table, err error) { w.log(nil, "table error: %v", err) })
	if sp.Direct {
		b.te.OnTableUpdated(func(t *pokertable.Table) {
			b.feed(t)
			var c pokertable.Table
			if d, err := json.Marshal(t); err == nil && json.Unmarshal(d, &c) == nil {
				b.be.UpdateTable(&c)
			}
		})
	}
	for _, p := range b.actors {
		p := p
		p.a = actor.NewActor()
		p.a.SetAdapter(&bAdapter{Adapter: actor.NewTableEngineAdapter(b.te, st.State.Tables[0]), p: p})
		if p.spec.Kind == "player" {
			p.pr = actor.NewPlayerRunner(p.spec.ID)
			p.pr.SetSuspendThreshold(p.spec.Thresh)
			p.pr.OnTableGameWagerActionUpdated(func(tid, gid string, _ int, _, action string, chips int64) { p.reported(tid, action, chips) })
			p.pr.OnAutoModeUpdated(func(_ string, on bool) { p.autoMode(on) })
			p.a.SetRunner(p.pr)
		} else {
			br := actor.NewBotRunner(p.spec.ID)
			br.Humanized(p.spec.Kind == "humanized")
			br.OnTableGameWagerActionUpdated(func(tid, gid string, _ int, _, action string, chips int64) { p.reported(tid, action, chips) })
			br.OnTableAutoJoinActionRequested(func(cid, tid, pid string) {
				simrt.GoNamed("join:"+pid, func() {
					if err := b.te.PlayerJoin(pid); err == nil {
						p.joined = true
					}
				})
			})
			p.a.SetRunner(br)
		}
		simrt.GoNamed("client:"+p.spec.ID, func() {
			time.Sleep(time.Duration(p.spec.At) * time.Millisecond)
			simrt.Gate()
			p.buyIn()
		})
	}
	simrt.GoNamed("heartbeat", func() {
		for !b.over {
			time.Sleep(time.Second)
			simrt.Gate()
			b.beat()
		}
	})
	w.setup = true
}

// autoMode: the runner says whether the player is on automatic.
func (p *bActor) autoMode(on bool) {
	simrt.NoPreempt(func() {
		p.b.w.log(nil, "%s auto mode %v (missed %d)", p.spec.ID, on, p.missed)
		p.suspend = on
		if !on {
			p.missed = 0
		}
	})
}

// reported: the runner tells what the player did; whoever listens may take
// a moment.
func (p *bActor) reported(tid, action string, chips int64) {
	w := p.b.w
	simrt.NoPreempt(func() {
		w.checks["C21"]++
		l := p.unrep[action]
		if len(l) == 0 {
			w.violate(nil, "C21", "reported", "%s is reported to %s (%d) but did not", p.spec.ID, action, chips)
			return
		}
		p.unrep[action] = l[1:]
		if l[0] >= 0 && l[0] != chips {
			w.violate(nil, "C21", "reported-chips", "%s is reported to %s %d, it was %d", p.spec.ID, action, chips, l[0])
		}
	})
	if p.spec.PubMs > 0 {
		simrt.NoPreempt(func() { w.faults["slow-subscriber"]++ })
		time.Sleep(time.Duration(p.spec.PubMs) * time.Millisecond)
		simrt.Gate()
	}
}

func (p *bActor) buyIn() {
	b := p.b
	if b.ended() {
		return
	}
	simrt.NoPreempt(func() {
		b.buys++
		p.paid += p.spec.Chips
	})
	err := b.mgr.PlayerBuyIn("B", pc.JoinPlayer{PlayerID: p.spec.ID, RedeemChips: p.spec.Chips})
	simrt.NoPreempt(func() {
		b.buys--
		b.w.nCalls++
		b.w.log(nil, "buyin %s %d -> %v", p.spec.ID, p.spec.Chips, err)
		if err != nil {
			p.paid -= p.spec.Chips
		} else {
			p.buys++
		}
	})
	if err == nil && p.spec.Kind == "player" && p.spec.JoinMs >= 0 {
		time.Sleep(time.Duration(p.spec.JoinMs) * time.Millisecond)
		simrt.Gate()
		if err := b.te.PlayerJoin(p.spec.ID); err != nil {
			b.w.log(nil, "%s sits down: %v", p.spec.ID, err)
		}
	}
}

func (b *BW) ended() bool {
	if b.st == nil {
		return false
	}
	switch b.st.State.Status {
	case pc.CompetitionStateStatus_End, pc.CompetitionStateStatus_AutoEnd, pc.CompetitionStateStatus_ForceEnd:
		return true
	}
	return false
}

func (b *BW) breaking() bool { return b.st != nil && b.st.IsBreaking() }

// slack: how much later than due things may be when activities were stalled.
func (b *BW) slack() time.Duration {
	if n := len(b.w.s.Stats().Stalls); n > 0 {
		return time.Duration(n)*4*time.Second + 2*time.Second
	}
	return time.Second
}

func (b *BW) beat() {
	simrt.NoPreempt(func() {
		w := b.w
		now := time.Now()
		if b.te == nil || b.st == nil || w.s.Dead() {
			return
		}
		at := time.Duration(b.spec.Meta.ActionTime) * time.Second
		for _, p := range b.actors {
			if r := p.req; r != nil && !r.done && b.gs() != nil && b.gs().GameID == r.gameID && b.gs().UpdatedAt == r.upd {
				w.checks["C21"]++
				due := r.at.Add(b.slack())
				if r.timed && !r.auto && p.spec.Kind != "bot" {
					due = due.Add(at)
				}
				if now.After(due) && !b.ended() {
					b.breach("C21", "not-acted", "%s (%s) was asked to %v %s ago and nothing was done for them", p.spec.ID, p.spec.Kind, r.acts, now.Sub(r.at))
				}
			}
		}
		tb := b.te.GetTable()
		if !b.openAt.IsZero() && !b.ended() {
			w.checks["C21"]++
			if d := now.Sub(b.moved); d > at+19*time.Second+b.slack() {
				b.breach("C21", "held-up", "hand %d has not moved for %s (%s)", tb.State.GameCount, d, tb.State.Status)
			}
		}
		// play goes on
		run := b.st.State.Status == pc.CompetitionStateStatus_DelayedBuyIn || b.st.State.Status == pc.CompetitionStateStatus_StoppedBuyIn
		if run && b.startAt.IsZero() {
			b.startAt = now
		}
		// the table service continues with those of the last hand: fewer than
		// two and it waits, whoever else is seated
		alive := 0
		for _, ps := range tb.State.PlayerStates {
			if ps.IsIn && ps.Bankroll > 0 && (b.hands == 0 || ps.IsParticipated) && (b.last == nil || b.last[ps.PlayerID]) {
				alive++
			}
		}
		w.checks["C22"]++
		limit := b.startAt.Add(time.Duration(b.spec.Meta.MaxDuration) * time.Second)
		if run && !b.breaking() && b.openAt.IsZero() && alive >= 2 && now.Before(limit) {
			if b.okSince.IsZero() {
				b.okSince = now
			}
			if d := now.Sub(b.okSince); d > 25*time.Second+time.Duration(b.spec.Continue+b.spec.Open)*time.Second+b.slack() {
				b.breach("C22", "no-hand", "%d players with chips are seated, no break, but no hand opened for %s (table %s)", alive, d, tb.State.Status)
			}
		} else {
			b.okSince = time.Time{}
		}
		if run && alive >= 2 && now.After(limit.Add(3*time.Second)) && b.openAt.IsZero() && b.hands > 0 && !b.breaking() {
			if b.overdue.IsZero() {
				b.overdue = now
			}
			if d := now.Sub(b.overdue); d > 60*time.Second+b.slack() {
				b.breach("C22", "not-ended", "the time limit passed %s ago, no hand is played, and the competition has not ended (table %s)", now.Sub(limit), tb.State.Status)
			}
		} else {
			b.overdue = time.Time{}
		}
	})
}

// quiet: nothing is running.
func (b *BW) quiet() {
	w := b.w
	w.quiets++
	if b.st == nil || b.te == nil || b.reports > 0 || b.buys > 0 || b.ended() {
		return
	}
	if len(b.locked) > 0 {
		return // the table is being asked to seat or to free players
	}
	if b.table == nil || b.table.State.Status == pokertable.TableStateStatus_TableGameSettled {
		return
	}
	w.checks["C22"]++
	for _, p := range b.actors {
		for a, l := range p.unrep {
			if len(l) > 0 && p.inCall == 0 && len(w.s.Stats().Stalls) == 0 {
				b.breach("C21", "unreported", "%s did %s and nobody was told", p.spec.ID, a)
			}
		}
	}
	tb := b.te.GetTable()
	off := false
	for _, ps := range tb.State.PlayerStates {
		for _, cp := range b.st.State.Players {
			if cp.PlayerID != ps.PlayerID {
				continue
			}
			key, what := "", ""
			if cp.Chips != ps.Bankroll {
				key, what = "table-chips", fmt.Sprintf("%s has %d chips at the table, the competition accounts for %d", ps.PlayerID, ps.Bankroll, cp.Chips)
			} else if cp.CurrentSeat != ps.Seat || cp.CurrentTableID != tb.ID {
				key, what = "table-seat", fmt.Sprintf("%s has seat %d of %s, the competition says %d of %s", ps.PlayerID, ps.Seat, tb.ID, cp.CurrentSeat, cp.CurrentTableID)
			}
			if key == "" {
				continue
			}
			// a report may still be on its way
			off = true
			if b.offAt.IsZero() {
				b.offAt = time.Now()
			}
			if d := time.Since(b.offAt); d > b.slack()+2*time.Second {
				b.breach("C22", key, "%s, for %s", what, d)
			}
		}
	}
	if !off {
		b.offAt = time.Time{}
	}
}

func (b *BW) done() bool {
	w := b.w
	w.endMs = w.ms()
	if b.over {
		return true
	}
	if !w.setup {
		return false
	}
	if len(w.viol) > 0 && w.stopAt.IsZero() {
		w.stopAt = time.Now().Add(time.Second)
	}
	if w.stopAt.IsZero() && !b.endAt.IsZero() {
		w.stopAt = time.Now().Add(time.Duration(w.sc.Grace) * time.Second)
	}
	if !w.stopAt.IsZero() && !time.Now().Before(w.stopAt) {
		b.over = true
		if b.ended() {
			b.final()
		}
		return true
	}
	return false
}

// final: one place per player.
func (b *BW) final() {
	w := b.w
	w.checks["C22"]++
	place := map[string]int{}
	var chips int64
	for i, r := range b.st.State.Rankings {
		if place[r.PlayerID] != 0 {
			b.breach("C22", "ranked-twice", "%s is ranked %d and %d", r.PlayerID, place[r.PlayerID], i+1)
		}
		place[r.PlayerID] = i + 1
		chips += r.FinalChips
	}
	var want int64
	ids := []string{}
	for _, p := range b.actors {
		if p.buys > 0 {
			ids = append(ids, p.spec.ID)
			want += p.paid
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		if place[id] == 0 && b.hands > 0 {
			b.breach("C22", "unranked", "%s took part but has no place: %d rankings", id, len(b.st.State.Rankings))
		}
	}
	if b.hands > 0 && len(b.st.State.Rankings) != len(ids) {
		b.breach("C22", "rankings", "%d players took part, %d are ranked", len(ids), len(b.st.State.Rankings))
	}
	if b.hands > 0 && b.buys == 0 && chips != want {
		b.breach("C22", "final-chips", "the rankings hold %d chips, %d were bought", chips, want)
	}
}

func newBW(w *World) *BW {
	return &BW{w: w, spec: w.sc.B, byID: map[string]*bActor{}, locked: map[uint64]string{}, settled: map[string]bool{}}
}

// generateB draws a scenario of World B.
func generateB(profile string, seed uint64) *Scenario {
	r := newRng(seed, simrt.HashStr(profile), 4242)
	sc := &Scenario{Seed: seed, Profile: profile, World: "B", PhaseNs: int64(r.n(1000)) * 1e6}
	b := &SpecB{Continue: r.in(1, 2), Open: r.in(2, 3), StartIn: -1}
	m := &b.Meta
	m.Mode, m.Rule = pc.CompetitionMode_CT, pc.CompetitionRule_Default
	if r.p(20) {
		m.Rule = pc.CompetitionRule_ShortDeck
	}
	m.TableMaxSeatCount = 9
	m.TableMinPlayerCount = 2
	m.MinPlayerCount, m.MaxPlayerCount = 2, 9
	m.MinChipUnit = 10
	m.ActionTime = r.in(3, 12)
	m.MaxDuration = r.ii(60, 120, 180, 300)
	n := r.in(2, 6)
	nl := r.in(1, 5)
	lv := 0
	for i := 0; i < nl; i++ {
		l := pc.BlindLevel{Duration: r.in(15, 60)}
		if i > 0 && i+1 < nl && r.p(30) {
			l.Level, l.Duration = -1, r.in(6, 25)
		} else {
			lv++
			l.Level = lv
			l.SB, l.BB = int64(10*lv), int64(20*lv)
			if r.p(40) {
				l.Ante = int64(5 * lv)
			}
			if m.Rule == pc.CompetitionRule_ShortDeck {
				l.SB, l.BB, l.Ante = 0, 0, int64(10*lv)
			}
		}
		m.Blind.Levels = append(m.Blind.Levels, l)
	}
	m.Blind.ID = "b"
	m.Blind.InitialLevel = 1
	m.Blind.FinalBuyInLevelIndex = r.n(nl)
	if m.Blind.Levels[m.Blind.FinalBuyInLevelIndex].Level == -1 {
		m.Blind.FinalBuyInLevelIndex = 0
	}
	if m.Rule == pc.CompetitionRule_ShortDeck {
		m.Blind.DealerBlindTime = 2
	}
	m.ReBuySetting = pc.ReBuySetting{MaxTime: r.ii(0, 1, 2, 3), WaitingTime: r.in(5, 15)}
	m.MinPlayerCount = r.in(2, n)
	b.DisableIn = 2000
	if r.p(40) {
		b.StartIn = r.in(3, 30)
	}
	b.Direct = r.p(50)
	for i := 0; i < n; i++ {
		a := ActorB{ID: fmt.Sprintf("p%d", i), Kind: "bot", At: r.in(0, 3000), Chips: r.i64(200, 500, 1000, 2000)}
		if b.StartIn > 0 {
			a.At = r.in(0, b.StartIn*800)
		}
		switch r.pick(3, 2, 4) {
		case 1:
			a.Kind = "humanized"
		case 2:
			a.Kind = "player"
			a.JoinMs = r.ii(0, 200, 1000, 5000, -1)
			a.MaxMs = r.in(50, m.ActionTime*1000)
			a.MinMs = r.n(a.MaxMs)
			a.Idle = r.ii(0, 0, 10, 40, 100)
			a.Wrong = r.ii(0, 0, 20)
			a.Auto = r.ii(0, 0, 5)
			a.Resume = r.ii(0, 20, 60)
			a.Thresh = r.in(1, 3)
			a.PubMs = r.ii(0, 0, 5, 100, 800)
		}
		a.ReBuy = r.ii(0, 1, 2)
		if i >= m.MinPlayerCount && r.p(30) {
			a.At = r.in(1000, 40000)
		}
		b.Actors = append(b.Actors, a)
	}
	sc.B = b
	sc.Horizon = m.MaxDuration + 400
	sc.Grace = 3
	sc.Sched.Policy = r.ii(0, 0, 1, 2)
	if r.p(60) {
		sc.Sched.PreemptRate = uint64(r.ii(200, 1000, 5000))
		sc.Sched.MaxPreempts = r.ii(3, 10, 40)
		if r.p(25) {
			sc.Sched.StallRate = uint64(r.ii(200, 1000))
		}
	}
	return sc
}

// ours tells whether a crash happened in the repository's code or in what it
// called directly.
func ours(stack string) bool {
	if i := strings.Index(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	n := 0
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || !strings.HasPrefix(l, "github.com/") {
			continue
		}
		if strings.Contains(l, "weedbox/pokercompetition") {
			return true
		}
		if n++; n == 2 {
			return false
		}
	}
	return n == 0
}
