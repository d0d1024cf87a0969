package harness

import (
	"fmt"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"

	"verif/simrt"
)

// The book is the reference model: what the accepted calls and the settled
// hands amount to, kept independently of the competition's own bookkeeping.

type span struct{ lo, hi time.Time }

type BP struct {
	id            string
	seq           int
	joinLo        time.Time
	joinHi        time.Time
	joinAt        int64
	redeemed      int64
	units         int
	rebuys        int
	addons        int
	delta         int64
	bust          *span // last settlement that left the player without chips
	elim          *elim
	quit          bool
	busts         int
	st            pstats
	deadline      span // re-buy deadline window of the last bust
	deadBust      int
	leaveReq      []time.Time // accepted leave requests (cash)
	leaveFuzzy    bool        // a leave request overlapped a buy-in of the player
	leaveSet      int         // settlements delivered since the leave was accepted
	leaveWaitFrom time.Time
	lostPurchase  int64
	fuzzy         bool
	unsure        bool // a purchase was credited although it failed at the table
	early         bool // dealt a hand before the buy-in answered: counters unknown
	fuzzN         int
	bustLap       bool       // busted while a purchase was under way
	moveLap       bool       // seated elsewhere while a purchase was under way
	lastRec       *settleRec // last reported hand the player was listed in
}

type elim struct {
	span
	batch int
	stop  bool
	post  bool // registration was closed
}

type pstats struct {
	Games, Walk                                 int64
	Fold, PreF, FlopF, TurnF, RiverF            int
	Action, Raise, Call, Check, Profit          int
	VPIPc, VPIP, PFRc, PFR, ATSc, ATS, B3c, B3  int
	F3c, F3, CRc, CR, CBc, CB, FCc, FC, SWc, SW int
	BestPot                                     int64
	BestPower                                   int
	BestCombo                                   string
	BestType                                    string
}

// nestRec is a finished hand reported inside a request to its own table.
type nestRec struct {
	t  *FTable
	gc int
	lo time.Time
}

type settleRec struct {
	n           int // how many reports began before, this one included
	t           *FTable
	gc          int
	lo          time.Time
	run         bool
	parts       []string
	busted      []string
	rank        map[string]int64
	changed     map[string]int64
	dup         bool // reported again while this report was being handled
	batch       int
	open        bool
	preSerial   int64
	upd         *watch
	joined      map[string]int64
	stoppedAtLo bool
	advLo       bool
	nested      bool
	pausedLo    int
	behind      bool // a request to the table service was under way when it was reported
	gid         int64
	pre         int
}

type watch struct {
	pred func(*pc.Competition) bool
	ok   bool
	n    int
}

type book struct {
	players   map[string]*BP
	refunded  map[string]time.Time // player -> when (until registered again)
	cashed    map[string]time.Time
	seq       int
	units     int
	addonN    int
	meta      pc.CompetitionMeta
	startSet  int64
	disableAt int64
	initLevel int
	reported  map[*FTable]map[int]bool
	recs      []*settleRec
	nRec      int
	batchNo   int
	autoEnds  int
	releasing bool

	started          time.Time // a start call was accepted / the start was announced
	startUnix        int64
	startN           int
	act              time.Time // blinds started
	actLevel         int
	actN             int
	levelSeen        map[int]int
	lastLevel        int
	levelAtT         time.Time // of the last level change after the start
	lastBuy          time.Time // the last purchase returned
	stop             time.Time // registration closed
	stopChecked      bool
	stopWaiters      []string
	stopActive       bool
	ends             int
	endTime          time.Time
	endState         pc.CompetitionStateStatus
	endWhy           endContext
	frozen           string
	frozenObs        *frozen
	statusMax        int
	lastStatus       pc.CompetitionStateStatus
	serial           int64
	serialSet        bool
	updates          int
	watches          []*watch
	rankDirty        bool
	moneyFuzzy       bool
	closeCalls       []closeCall
	inFlight         map[*callRec]bool
	cameBack         map[string]bool // refunded before and in the competition again
	advCount         int
	advAsked         int
	pausedT          map[*FTable]int
	pausedOrder      []*FTable
	lastSettle       time.Time
	lastSettleBy     int64
	lastPause        time.Time
	oneLeft          time.Time
	allPaused        time.Time
	startable        time.Time
	activable        time.Time
	handsAfterEnd    int
	cashOver         bool // a hand of the cash game settled after its time limit
	lastHandEnd      time.Time
	ctIdle           time.Time
	lowAlive         time.Time
	emptySince       map[*FTable]time.Time
	brkEnds          map[int]time.Time
	brkCount         map[string]int
	blindTaint       map[*FTable]bool
	statusAtDisable  pc.CompetitionStateStatus
	playersAtDisable int
	disableSeen      bool
	initUpdates      []initUpd
	lostSince        map[string]time.Time
	seatSince        map[string]time.Time
	leaveObs         map[string]bool
	cashN            int
	tblErr           int
}

type initUpd struct {
	lo, hi time.Time
	level  int
	seq    int
}

type closeCall struct {
	lo, hi time.Time
	status pc.CompetitionStateStatus
	reset  bool
	done   bool
}

type endContext struct {
	at       time.Time
	prev     pc.CompetitionStateStatus
	tables   int
	holders  int
	alive0   int // players with chips at the first table
	players  int
	closeOp  bool
	stopNow  bool
	regist   int
	stopped  bool
	paused   int
	settling int
	lap      bool // a hand was being settled by somebody else at that moment
	prevLast time.Time
}

type frozen struct {
	status  pc.CompetitionStateStatus
	endAt   int64
	startAt int64
	ranks   string
	players map[string]string
	at      time.Time
}

type callRec struct {
	gid    uint64
	kind   string
	player string
	lo     time.Time
}

func (b *book) init() {
	b.players = map[string]*BP{}
	b.refunded = map[string]time.Time{}
	b.cashed = map[string]time.Time{}
	b.reported = map[*FTable]map[int]bool{}
	b.levelSeen = map[int]int{}
	b.lastLevel = -1
	b.actLevel = -1
	b.inFlight = map[*callRec]bool{}
	b.cameBack = map[string]bool{}
	b.pausedT = map[*FTable]int{}
	b.emptySince = map[*FTable]time.Time{}
	b.brkEnds = map[int]time.Time{}
	b.brkCount = map[string]int{}
	b.blindTaint = map[*FTable]bool{}
	b.lostSince = map[string]time.Time{}
	b.seatSince = map[string]time.Time{}
	b.leaveObs = map[string]bool{}
}

func (p *BP) chips() int64 { return p.redeemed + p.delta }

// ---------------------------------------------------------------- schedule

// initIdx is the level the schedule starts at.
func (c *Comp) initIdx() int {
	idx := -1
	for i, l := range c.meta.Blind.Levels {
		if l.Level == c.initLevel {
			idx = i
		}
	}
	return idx
}

// levelEnd is the announced end of level i (zero: never).
func (c *Comp) levelEnd(i int) int64 {
	if c.act.IsZero() || i < c.actLevel {
		return 0
	}
	e := c.act.Unix()
	for k := c.actLevel; k <= i; k++ {
		d := c.meta.Blind.Levels[k].Duration
		if d < 0 {
			return 0
		}
		e += int64(d)
	}
	return e
}

// levelAt is the level the schedule dictates at second u.
func (c *Comp) levelAt(u int64) int {
	if c.act.IsZero() {
		return -1
	}
	i := c.actLevel
	for i+1 < len(c.meta.Blind.Levels) {
		e := c.levelEnd(i)
		if e == 0 || u < e {
			break
		}
		i++
	}
	return i
}

func (c *Comp) blindsOf(i int) []int64 {
	if i < 0 {
		return nil
	}
	l := c.meta.Blind.Levels[i]
	d := int64(0)
	if c.meta.Blind.DealerBlindTime > 0 {
		d = l.Ante * (int64(c.meta.Blind.DealerBlindTime) - 1)
	}
	return []int64{int64(l.Level), l.Ante, d, l.SB, l.BB}
}

func (c *Comp) breaking() bool {
	i := c.st.State.BlindState.CurrentLevelIndex
	return i >= 0 && i < len(c.meta.Blind.Levels) && c.meta.Blind.Levels[i].Level == -1
}

// stopped: the schedule (not the competition's own flag) says registration is over.
func (c *Comp) levelStops(i int) bool {
	f := c.meta.Blind.FinalBuyInLevelIndex
	if f == pc.NoStopBuyInIndex {
		return false
	}
	if f == pc.UnsetValue {
		return true
	}
	return i > f
}

func (c *Comp) schedStopped(u int64) bool {
	if c.act.IsZero() {
		return c.meta.Blind.FinalBuyInLevelIndex == pc.UnsetValue
	}
	return c.levelStops(c.levelAt(u))
}

// ---------------------------------------------------------------- purchases

func (c *Comp) bookBuyIn(id string, chips int64, unit int, lo time.Time) {
	p := c.players[id]
	if p == nil {
		c.seq++
		p = &BP{id: id, seq: c.seq, joinLo: lo, joinHi: time.Now()}
		if eh := c.earlyHands[id]; eh != nil {
			p.early, p.fuzzy, p.fuzzN = true, true, c.nRec
			p.delta += eh.delta
			if eh.busted {
				p.fuzzN, p.unsure = 1<<30, true
			}
			delete(c.earlyHands, id)
		}
		c.players[id] = p
		if cp := c.player(id); cp != nil {
			p.joinAt = cp.JoinAt
			if cp.JoinAt < lo.Unix() || cp.JoinAt > time.Now().Unix() {
				c.w.violate(c, "C03", "join-time", "%s registered between %d and %d but JoinAt is %d", id, lo.Unix(), time.Now().Unix(), cp.JoinAt)
			}
		}
		if _, ref := c.refunded[id]; ref {
			c.cameBack[id] = true
		}
		delete(c.refunded, id)
		delete(c.cashed, id)
	} else {
		p.rebuys++
	}
	p.quit = false
	p.redeemed += chips
	if c.meta.Mode != pc.CompetitionMode_Cash {
		p.units += unit
		c.units += unit
	} else if p.rebuys == 0 {
		p.units = unit
	}
}

// ---------------------------------------------------------------- hands

func (c *Comp) beginSettle(t *FTable, cl *pokertable.Table) *settleRec {
	st := cl.State
	rec := &settleRec{t: t, gc: st.GameCount, lo: time.Now(), behind: c.backend > 0, gid: int64(simrt.GID()), pre: c.w.s.NPreempts(), open: true, rank: map[string]int64{}, changed: map[string]int64{}, joined: map[string]int64{}}
	rec.run = c.created && !c.ended() && (c.own != nil || !c.released) && c.hasTable(t.tb.ID)
	c.recs = append(c.recs, rec)
	c.nRec++
	rec.n = c.nRec
	c.lastSettle, c.lastSettleBy = time.Now(), int64(simrt.GID())
	if !rec.run {
		return rec
	}
	c.batchNo++
	rec.batch = c.batchNo
	rec.stoppedAtLo = c.levelStops(c.st.State.BlindState.CurrentLevelIndex)
	preF := 0
	for _, ps := range st.PlayerStates {
		if bp := c.players[ps.PlayerID]; bp != nil {
			bp.lastRec = rec
		}
		if !ps.IsParticipated {
			rec.rank[ps.PlayerID] = -1
			continue
		}
		bp := c.players[ps.PlayerID]
		if ps.GameStatistics.IsFold && ps.GameStatistics.FoldRound == pokertable.GameRound_Preflop && (bp != nil || c.flying("buyin", ps.PlayerID)) {
			preF++
		}
		if bp == nil {
			continue
		}
		s, g := &bp.st, ps.GameStatistics
		s.Games++
		if g.IsFold {
			s.Fold++
			switch g.FoldRound {
			case pokertable.GameRound_Preflop:
				s.PreF++
			case pokertable.GameRound_Flop:
				s.FlopF++
			case pokertable.GameRound_Turn:
				s.TurnF++
			case pokertable.GameRound_River:
				s.RiverF++
			}
		}
		s.Action += g.ActionTimes
		s.Raise += g.RaiseTimes
		s.Call += g.CallTimes
		s.Check += g.CheckTimes
		inc := func(n *int, b bool) {
			if b {
				*n++
			}
		}
		inc(&s.VPIPc, g.IsVPIPChance)
		inc(&s.VPIP, g.IsVPIP)
		inc(&s.PFRc, g.IsPFRChance)
		inc(&s.PFR, g.IsPFR)
		inc(&s.ATSc, g.IsATSChance)
		inc(&s.ATS, g.IsATS)
		inc(&s.B3c, g.Is3BChance)
		inc(&s.B3, g.Is3B)
		inc(&s.F3c, g.IsFt3BChance)
		inc(&s.F3, g.IsFt3B)
		inc(&s.CRc, g.IsCheckRaiseChance)
		inc(&s.CR, g.IsCheckRaise)
		inc(&s.CBc, g.IsCBetChance)
		inc(&s.CB, g.IsCBet)
		inc(&s.FCc, g.IsFtCBChance)
		inc(&s.FC, g.IsFtCB)
		inc(&s.SWc, g.ShowdownWinningChance)
		inc(&s.SW, g.IsShowdownWinning)
	}
	now := time.Now()
	for _, r := range st.GameState.Result.Players {
		ps := st.PlayerStates[st.GamePlayerIndexes[r.Idx]]
		bp := c.players[ps.PlayerID]
		rec.parts = append(rec.parts, ps.PlayerID)
		rec.rank[ps.PlayerID] = ps.Bankroll
		rec.changed[ps.PlayerID] = r.Changed
		if bp == nil {
			continue
		}
		if bp.elim == nil {
			bp.bustLap = false
		}
		rec.joined[ps.PlayerID] = bp.joinAt
		bp.delta += r.Changed
		if r.Changed > 0 {
			bp.st.Profit++
			g := st.GameState.Players[r.Idx]
			if st.CurrentBBSeat == ps.Seat && ps.GameStatistics.ActionTimes == 0 && preF == len(st.GamePlayerIndexes)-1 {
				bp.st.Walk++
			}
			if r.Changed > bp.st.BestPot {
				bp.st.BestPot = r.Changed
			}
			if g.Combination.Power >= bp.st.BestPower {
				bp.st.BestPower = g.Combination.Power
				bp.st.BestCombo = fmt.Sprint(g.Combination.Cards)
				bp.st.BestType = g.Combination.Type
			}
		}
		if ps.Bankroll == 0 {
			bp.busts++
			bp.bust = &span{now, now}
			rec.busted = append(rec.busted, ps.PlayerID)
			w := time.Duration(c.meta.ReBuySetting.WaitingTime) * time.Second
			bp.deadline = span{now.Add(w), now.Add(w)}
			bp.deadBust = bp.busts
			if rec.stoppedAtLo || bp.rebuys >= c.meta.ReBuySetting.MaxTime {
				bp.elim = &elim{span: span{now, now}, batch: rec.batch, post: rec.stoppedAtLo}
			}
		}
	}
	// purchases overlapping the report: which of the two the report already
	// contains is undecidable from outside
	seen := map[string]bool{}
	for cr := range c.inFlight {
		if (cr.kind == "buyin" || cr.kind == "addon") && !seen[cr.player] {
			seen[cr.player] = true
			if chips, at := rec.rank[cr.player]; at {
				if bp := c.players[cr.player]; bp != nil && chips == 0 {
					bp.bustLap = true
				} else if bp != nil {
					bp.fuzzy = true
					bp.fuzzN = c.nRec
				} else {
					eh := c.earlyHands[cr.player]
					if eh == nil {
						eh = &earlyHand{}
						c.earlyHands[cr.player] = eh
					}
					eh.busted = eh.busted || chips == 0
					eh.delta += rec.changed[cr.player]
				}
			}
		}
	}
	want := map[string]int64{}
	for _, id := range rec.parts {
		if bp := c.players[id]; bp != nil {
			want[id] = bp.st.Games
		}
	}
	rec.upd = c.watch(func(st *pc.Competition) bool {
		for id, n := range want {
			ok := false
			for _, p := range st.State.Players {
				if p.PlayerID == id {
					ok = p.TotalGameCounts >= n
				}
			}
			if !ok && c.players[id] != nil {
				return false
			}
		}
		return true
	})
	for _, bp := range c.bps() {
		if len(bp.leaveReq) > 0 {
			bp.leaveSet++
		}
	}
	for i, id := range rec.busted {
		c.reactBust(c.players[id], i)
	}
	rec.pausedLo = t.pausedN
	rec.advLo, _ = c.advanceMet()
	allPaused := true
	for _, t := range c.openTables() {
		allPaused = allPaused && t.pausedN > 0
	}
	rec.advLo = rec.advLo && c.hasAdvance() && c.isMTT() && !allPaused
	return rec
}

func (c *Comp) endSettle(rec *settleRec) {
	rec.open = false
	now := time.Now()
	for i, r := range c.recs {
		if r == rec {
			c.recs = append(c.recs[:i:i], c.recs[i+1:]...)
			break
		}
	}
	if !rec.run {
		return
	}
	for _, id := range rec.busted {
		bp := c.players[id]
		if bp == nil {
			continue
		}
		if bp.bust != nil && bp.bust.lo.Equal(rec.lo) {
			bp.bust.hi = now
			w := time.Duration(c.meta.ReBuySetting.WaitingTime) * time.Second
			bp.deadline.hi = now.Add(w)
			if bp.elim != nil && bp.elim.lo.Equal(rec.lo) {
				bp.elim.hi = now
			}
		}
	}
	c.rankDirty = false
	c.unwatch(rec.upd)
	if c.w.s.Dead() {
		return
	}
	c.w.checks["C17"]++
	endedNow := c.ended()
	if !rec.upd.ok && !endedNow && !rec.dup {
		c.w.violate(c, "C17", "settle-unannounced", "table %d hand %d: settlement finished without an update that contains it", rec.t.ord, rec.gc)
	}
	c.checkTableRanks(rec)
	if rec.advLo && !endedNow && !c.advFuzzy() && c.atomic() {
		if met, _ := c.advanceMet(); met && rec.t.pausedN == rec.pausedLo && !rec.t.gone {
			c.w.violate(c, "C13", "not-paused", "the advancement rule was met when hand %d of table %d ended but the table was not paused", rec.gc, rec.t.ord)
		}
	}
	for _, id := range rec.parts {
		if bp := c.players[id]; bp != nil && bp.fuzzy && !c.flying("buyin", id) && !c.flying("addon", id) && bp.fuzzN < rec.n {
			bp.fuzzy = false
		}
	}
}

func (c *Comp) hasTable(id string) bool {
	for _, t := range c.st.State.Tables {
		if t.ID == id {
			return true
		}
	}
	return false
}

func (c *Comp) watch(pred func(*pc.Competition) bool) *watch {
	w := &watch{pred: pred}
	c.watches = append(c.watches, w)
	return w
}

func (c *Comp) unwatch(w *watch) {
	for i, x := range c.watches {
		if x == w {
			c.watches = append(c.watches[:i:i], c.watches[i+1:]...)
			return
		}
	}
}

func (c *Comp) holders() int {
	n := 0
	for _, p := range c.bps() {
		if p.chips() > 0 {
			n++
		}
	}
	return n
}

func (c *Comp) openTables() []*FTable {
	var r []*FTable
	for _, t := range c.order {
		if !t.gone {
			r = append(r, t)
		}
	}
	return r
}

// seatedAt returns the open tables the player sits at.
func (c *Comp) seatedAt(id string) []*FTable {
	var r []*FTable
	for _, t := range c.openTables() {
		if t.idx(id) >= 0 {
			r = append(r, t)
		}
	}
	return r
}

// earlyHand is what a player did before the buy-in that seated them answered.
type earlyHand struct {
	busted bool
	delta  int64
}

func (bp *BP) lapped() bool { return bp.bustLap || bp.moveLap }

// lapKey names breaches of players who busted while a purchase of theirs was
// still with the table service.
func (bp *BP) lapKey(key string) string {
	if bp.lapped() {
		return key + "-bust-overlap"
	}
	return key
}
