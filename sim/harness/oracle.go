package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/simrt"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// The oracles. Everything here reads; nothing in here calls the engine.

func statusRank(s pc.CompetitionStateStatus) int {
	switch s {
	case pc.CompetitionStateStatus_Registering:
		return 1
	case pc.CompetitionStateStatus_DelayedBuyIn:
		return 2
	case pc.CompetitionStateStatus_StoppedBuyIn:
		return 3
	case pc.CompetitionStateStatus_End, pc.CompetitionStateStatus_AutoEnd, pc.CompetitionStateStatus_ForceEnd:
		return 4
	}
	return 0
}

func (c *Comp) atomic() bool { return c.w.s.Preempted == 0 }

// idle: nothing of this competition is in the middle of anything.
func (c *Comp) idle() bool { return c.active == 0 && c.backend == 0 && c.w.s.Preempted == 0 }

// since tells how long cond has been observed to hold without interruption.
func (c *Comp) since(key string, cond bool) time.Duration {
	if !cond {
		delete(c.sinces, key)
		return -1
	}
	now := time.Now()
	t, ok := c.sinces[key]
	if !ok {
		c.sinces[key] = now
		return 0
	}
	return now.Sub(t)
}

func (c *Comp) running() bool {
	r := statusRank(c.st.State.Status)
	return r == 2 || r == 3
}

func (c *Comp) isCT() bool   { return c.meta.Mode == pc.CompetitionMode_CT }
func (c *Comp) isMTT() bool  { return c.meta.Mode == pc.CompetitionMode_MTT }
func (c *Comp) isCash() bool { return c.meta.Mode == pc.CompetitionMode_Cash }

// precise: time stamps of engine activity are exact (no goroutine was held up
// in the middle of engine code).
func (c *Comp) precise() bool {
	return c.w.sc.Sched.PreemptRate == 0 && c.w.sc.Sched.HotRate == 0 && !c.w.sc.Sched.Explicit
}

// ---------------------------------------------------------------- observing

// observe notices status and level changes as early as possible.
func (c *Comp) observe() {
	if c.st == nil {
		return
	}
	w := c.w
	now := time.Now()
	s := c.st.State.Status
	if s != c.lastStatus {
		w.log(c, "status %s -> %s", c.lastStatus, s)
		w.checks["C08"]++
		if statusRank(s) < statusRank(c.lastStatus) || statusRank(s) == 4 && statusRank(c.lastStatus) == 4 {
			w.violate(c, "C08", "status-back", "status went from %s to %s", c.lastStatus, s)
		}
		if statusRank(s) == 0 {
			w.violate(c, "C08", "status-unknown", "status became %q", s)
		}
		prev := c.lastStatus
		c.lastStatus = s
		if n := len(c.st.State.Players); prev == pc.CompetitionStateStatus_Registering && statusRank(s) < 4 && c.isMTT() && n < c.meta.MinPlayerCount && !c.refundBusy && !c.flying("refund", "") {
			w.violate(c, "C08", "started-few", "play begins with %d players registered, %d are required", n, c.meta.MinPlayerCount)
		}
		if s == pc.CompetitionStateStatus_StoppedBuyIn && c.stop.IsZero() {
			c.onStopped()
		}
		if statusRank(s) == 4 && c.endTime.IsZero() {
			c.onEnded(prev)
		}
	}
	li := c.st.State.BlindState.CurrentLevelIndex
	if li != c.lastLevel {
		c.onLevel(li, now)
	}
}

func (c *Comp) onLevel(li int, now time.Time) {
	w := c.w
	old := c.lastLevel
	c.lastLevel = li
	wasBreak := old >= 0 && old < len(c.meta.Blind.Levels) && c.meta.Blind.Levels[old].Level == -1
	if !wasBreak {
		c.playUntil = now
	}
	if old >= 0 {
		c.levelAtT = now
	}
	w.log(c, "level %d -> %d", old, li)
	w.checks["C06"]++
	if old == -1 {
		// started
		if c.act.IsZero() {
			c.act, c.actLevel = now, li
			w.resetSince(c)
		}
		ok := li >= 0 && li < len(c.meta.Blind.Levels) && c.initOK(c.meta.Blind.Levels[li].Level)
		if !ok {
			w.violate(c, "C06", "initial-level", "clock started at level index %d, configured initial level is %d", li, c.initLevel)
		}
		if statusRank(c.st.State.Status) == 4 && c.endTime.Before(now) {
			w.violate(c, "C06", "start-after-end", "the blind clock started after the competition ended")
		}
		return
	}
	if statusRank(c.st.State.Status) == 4 && c.endTime.Before(now) {
		w.violate(c, "C06", "moves-after-end", "level moved from %d to %d after the competition ended", old, li)
		return
	}
	if li != old+1 {
		w.violate(c, "C06", "level-step", "level moved from index %d to %d", old, li)
		return
	}
	if c.precise() {
		e := c.levelEnd(old)
		if e == 0 {
			w.violate(c, "C06", "level-unlimited", "level index %d has no end but moved on", old)
		} else if now.Unix() != e {
			w.violate(c, "C06", "level-time", "level index %d moved on at %d, its end is %d", old, now.Unix(), e)
		}
	}
}

// initOK: level is one of the initial levels that may have been in force.
func (c *Comp) initOK(level int) bool {
	if len(c.initUpdates) == 0 {
		return level == c.initLevel
	}
	last := c.initUpdates[len(c.initUpdates)-1]
	for _, u := range c.initUpdates {
		if u.level == level && !u.hi.Before(last.lo) {
			return true
		}
	}
	return false
}

func (w *World) resetSince(c *Comp) { c.sinces = map[string]time.Time{} }

func (c *Comp) onStopped() {
	now := time.Now()
	c.stop = now
	c.batchNo++
	c.stopBatch = c.batchNo
	w := c.w
	w.checks["C07"]++
	if c.precise() && !c.schedStopped(now.Unix()) && !(c.act.IsZero() && c.st.State.BlindState.CurrentLevelIndex > c.meta.Blind.FinalBuyInLevelIndex) {
		w.violate(c, "C07", "stopped-early", "registration closed at level index %d, last buy-in level index is %d", c.st.State.BlindState.CurrentLevelIndex, c.meta.Blind.FinalBuyInLevelIndex)
	}
	for _, bp := range c.bps() {
		if bp.chips() == 0 && bp.elim == nil && !c.flying("buyin", bp.id) {
			bp.elim = &elim{span: span{now, now}, batch: c.batchNo, stop: true, post: true}
			c.stopWaiters = append(c.stopWaiters, bp.id)
		}
	}
	sort.Strings(c.stopWaiters)
}

func (c *Comp) flying(kind, player string) bool {
	for cr := range c.inFlight {
		if cr.kind == kind && (player == "" || cr.player == player) {
			return true
		}
	}
	return false
}

func (c *Comp) onEnded(prev pc.CompetitionStateStatus) {
	now := time.Now()
	w := c.w
	c.endTime = now
	c.endState = c.st.State.Status
	e := &c.endWhy
	e.at, e.prev = now, prev
	e.holders = c.holders()
	e.players = len(c.players)
	e.stopped = !c.stop.IsZero()
	for _, r := range c.recs {
		if r.gid != int64(simrt.GID()) {
			e.lap = true
		}
	}
	for cr := range c.inFlight {
		if cr.kind != "close" && cr.gid != uint64(simrt.GID()) || cr.kind == "close" && !(c.lastSettle.Before(cr.lo) && c.lastBuy.Before(cr.lo)) {
			e.lap = true
		}
	}
	if c.lastSettle.Equal(now) && c.lastSettleBy != int64(simrt.GID()) {
		e.lap = true
	}
	for _, t := range c.openTables() {
		e.tables++
		if t.advP {
			e.paused++
		}
		if e.tables == 1 {
			e.alive0 = t.alive()
		}
	}
	for i := range c.closeCalls {
		cc := &c.closeCalls[i]
		if !cc.done && cc.status == c.endState {
			e.closeOp = true
		}
	}
	if w.resetAct > 0 && c.endState == pc.CompetitionStateStatus_ForceEnd {
		e.closeOp = true
	}
	// An end through a close call that was still being carried out when other
	// reasons coincided is covered by closeOp; everything else needs a reason.
	if e.closeOp || !c.atomic() {
		return
	}
	u := now.Unix()
	switch c.endState {
	case pc.CompetitionStateStatus_ForceEnd:
		w.violate(c, "C18", "force-end-unasked", "the competition was force-ended although nobody closed it")
	case pc.CompetitionStateStatus_AutoEnd:
		w.checks["C20"]++
		if statusRank(prev) != 1 || u < c.disableAt || len(c.players) >= c.meta.MinPlayerCount && !c.flying("", "") {
			w.violate(c, "C20", "auto-end-wrong", "auto-ended at %d from %s with %d players (minimum %d), visible until %d", u, prev, len(c.players), c.meta.MinPlayerCount, c.disableAt)
		}
	case pc.CompetitionStateStatus_End:
		switch {
		case c.isCT():
			w.checks["C20"]++
			over := c.startUnix > 0 && u >= c.startUnix+int64(c.meta.MaxDuration)
			few := e.stopped && e.alive0 < max(2, c.meta.TableMinPlayerCount)
			if !over && !few {
				w.violate(c, "C20", "ct-early-end", "ended at %d, end time is %d, registration closed=%v, %d players with chips at the table", u, c.startUnix+int64(c.meta.MaxDuration), e.stopped, e.alive0)
			}
		case c.isMTT():
			w.checks["C13"]++
			adv := c.hasAdvance()
			allPaused := e.tables > 0 && e.paused == e.tables
			switch {
			case !e.stopped:
				w.violate(c, "C13", "ended-in-registration", "ended by itself although registration is open (%d players with chips, %d tables)", e.holders, e.tables)
			case adv && allPaused:
			case e.holders <= 1:
			case e.stopped && now.Equal(c.stop) && (e.tables == 0 || e.tables == 1 && e.alive0 < 2):
				// too few left to go on at the moment registration closed
			default:
				w.violate(c, "C13", "ended-early", "ended by itself with %d players holding chips, %d tables (%d paused for advancement)", e.holders, e.tables, e.paused)
			}
		case c.isCash():
			if c.startUnix == 0 || u < c.startUnix+int64(c.meta.MaxDuration) {
				w.violate(c, "C20", "cash-early-end", "the cash game ended by itself at %d", u)
			}
		}
	}
}

func (c *Comp) hasAdvance() bool {
	r := c.meta.AdvanceSetting.Rule
	return r == pc.CompetitionAdvanceRule_BlindLevel || r == pc.CompetitionAdvanceRule_PlayerCount
}

// ---------------------------------------------------------------- callbacks

func (c *Comp) cb(comp *pc.Competition, f func()) {
	simrt.NoPreempt(func() {
		if c.w.s.Dead() {
			return
		}
		if comp != nil {
			if comp.ID != c.spec.ID {
				c.w.violate(c, "C18", "foreign-callback", "listener of %s was told about %s", c.spec.ID, comp.ID)
				return
			}
			if c.st == nil {
				c.st = comp
				c.lastStatus = comp.State.Status
			}
		}
		c.dirty = true
		c.observe()
		f()
	})
}

func (c *Comp) onUpdate(comp *pc.Competition) {
	c.cb(comp, func() {
		c.updates++
		c.seen = c.visible(comp)
		if c.serialSet && comp.UpdateSerial <= c.serial {
			key := "serial"
			if c.serialGID != simrt.GID() && c.serialT.Equal(time.Now()) {
				key = "serial-overlap" // two goroutines announced at the same moment
			}
			c.w.violate(c, "C17", key, "serial %d announced after %d", comp.UpdateSerial, c.serial)
		}
		c.w.checks["C17"]++
		c.serial, c.serialSet, c.serialGID, c.serialT = comp.UpdateSerial, true, simrt.GID(), time.Now()
		for _, wt := range c.watches {
			if wt.ok {
				continue
			}
			wt.n++
			if wt.pred(comp) {
				wt.ok = true
			}
		}
	})
}

func (c *Comp) onError(comp *pc.Competition, err error) {
	c.cb(comp, func() {
		c.w.log(c, "error event: %v", err)
		c.errEvents++
		c.reportedErr(err)
	})
}

func (c *Comp) onPlayer(id string, cp *pc.CompetitionPlayer) {
	w := c.w
	c.cb(nil, func() {
		if id != c.spec.ID {
			c.w.violate(c, "C18", "foreign-player-callback", "listener of %s was told about a player of %s", c.spec.ID, id)
		}
		c.playerEvents++
		c.heard[cp.PlayerID] = *cp
		bp := c.players[cp.PlayerID]
		if !c.isMTT() || c.ended() || bp == nil || cp.Chips <= 0 || bp.chips() != cp.Chips || bp.fuzzy || bp.unsure || bp.lapped() || c.twice[bp.id] ||
			c.flying("buyin", bp.id) || c.flying("close", "") || w.failing {
			return
		}
		w.checks["C12"]++
		if cp.Status == pc.CompetitionPlayerStatus_ReBuyWaiting || cp.Status == pc.CompetitionPlayerStatus_Knockout {
			w.violate(c, "C12", "told-status", "an update says that %s, who holds %d chips, has status %s", bp.id, cp.Chips, cp.Status)
		}
	})
}

func (c *Comp) onFinalRank(id, player string, rank int) {
	c.cb(nil, func() {
		if id != c.spec.ID {
			c.w.violate(c, "C18", "foreign-rank-callback", "listener of %s was told about a rank in %s", c.spec.ID, id)
		}
		c.w.log(c, "final rank %s = %d", player, rank)
		c.notified[player] = append(c.notified[player], rank)
	})
}

func (c *Comp) onAdvance(id string, n int) int {
	simrt.NoPreempt(func() {
		if id != c.spec.ID {
			c.w.violate(c, "C18", "foreign-advance-callback", "listener of %s was asked about %s", c.spec.ID, id)
		}
		c.advAsked++
		c.advCount = c.spec.AdvanceN
	})
	return c.spec.AdvanceN
}

// checkStart: nothing starts on its own before its time or with too few seated.
func (c *Comp) checkStart(comp *pc.Competition) {
	w := c.w
	now := time.Now().Unix()
	if c.flying("start", "") {
		return // somebody starts it
	}
	if c.isMTT() && c.startSet <= 0 {
		w.violate(c, "C08", "started-early", "the MTT has no start time and nobody started it")
	}
	if !c.isCash() && c.startSet > 0 && now < c.startSet {
		w.violate(c, "C08", "started-early", "started at %d, scheduled for %d", now, c.startSet)
	}
	if c.isMTT() || c.refundLap || c.flying("refund", "") || c.flying("cashout", "") || c.flying("quit", "") {
		return
	}
	n := 0
	for _, t := range c.openTables() {
		for _, p := range t.tb.State.PlayerStates {
			if p.IsIn && p.Bankroll > 0 {
				n++
			}
		}
	}
	if n < c.meta.MinPlayerCount {
		w.violate(c, "C08", "started-few", "started with %d players seated, %d are required", n, c.meta.MinPlayerCount)
	}
}

func (c *Comp) onState(event string, comp *pc.Competition) {
	c.cb(comp, func() {
		w := c.w
		now := time.Now()
		c.stateEvents++
		w.log(c, "event %s", event)
		switch event {
		case pc.CompetitionStateEvent_Started:
			c.startN++
			c.started = now
			c.refundLap = c.refundLap || c.refundBusy
			c.startUnix = comp.State.StartAt
			w.checks["C08"]++
			if c.startN > 1 {
				w.violate(c, "C08", "started-twice", "the start was announced twice")
			}
			c.checkStart(comp)
			if comp.State.StartAt < now.Unix()-1 && c.precise() && !c.slowCreate() {
				w.violate(c, "C08", "start-time", "started at %d but the start time is %d", now.Unix(), comp.State.StartAt)
			}
		case pc.CompetitionStateEvent_BlindActivated:
			c.actN++
			if c.actN > 1 {
				w.violate(c, "C06", "activated-twice", "the blind clock was started twice")
			}
			if c.act.IsZero() {
				c.act, c.actLevel = now, comp.State.BlindState.CurrentLevelIndex
			}
			w.checks["C06"]++
			for i := range comp.State.BlindState.EndAts {
				if i < c.actLevel || !c.precise() {
					continue
				}
				want := c.levelEnd(i)
				if c.meta.Blind.Levels[i].Duration == -1 {
					if got := comp.State.BlindState.EndAts[i]; got != -1 {
						w.violate(c, "C06", "end-times", "level index %d has no end but is announced to end at %d", i, got)
					}
					break
				}
				if want == 0 {
					break
				}
				if got := comp.State.BlindState.EndAts[i]; got != want {
					w.violate(c, "C06", "end-times", "level index %d is announced to end at %d, the schedule says %d", i, got, want)
				}
			}
		case pc.CompetitionStateEvent_BlindUpdated:
			li := comp.State.BlindState.CurrentLevelIndex
			c.levelSeen[li]++
			lim := 1
			if c.levelStops(li) && !c.levelStops(li-1) {
				lim = 2 // level and status are announced separately
			}
			if li > 0 && c.levelStops(li-1) && c.levelSeen[li-1] < 2 && w.slowed() {
				lim++ // the stop took longer than the level
			}
			if c.levelSeen[li] > lim && c.precise() {
				w.violate(c, "C06", "announced-again", "level index %d was announced %d times", li, c.levelSeen[li])
			}
		case pc.CompetitionStateEvent_Settled:
			c.ends++
			w.checks["C08"]++
			if c.ends > 1 {
				w.violate(c, "C08", "settled-twice", "the competition was settled %d times", c.ends)
			}
		case pc.CompetitionStateEvent_PlayerRankUpdated:
			// with two changes under way one may already be half visible
			if c.atomic() && len(c.recs)+len(c.inFlight) <= 1 && c.again == 0 && !c.ended() {
				c.checkLiveRanks()
			}
		}
	})
}

// checkLiveRanks verifies the ranks just announced against the players' own
// chips and bust times.
func (c *Comp) checkLiveRanks() {
	w := c.w
	w.checks["C10"]++
	st := c.st.State
	pos := map[string]int{}
	for i, r := range st.Rankings {
		pos[r.PlayerID] = i
	}
	type ent struct {
		p   *pc.CompetitionPlayer
		grp int
	}
	var es []ent
	for _, p := range st.Players {
		_, out := pos[p.PlayerID]
		switch {
		case p.Chips > 0:
			es = append(es, ent{p, 0})
		case out:
			es = append(es, ent{p, 2})
		case p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting || p.Status == pc.CompetitionPlayerStatus_CashLeaving:
			es = append(es, ent{p, 1})
		default:
			// a player without chips is either waiting to re-buy or out; tell
			// only if the book knows better
			if bp := c.players[p.PlayerID]; bp != nil && bp.chips() == 0 && c.idleBut(1) {
				es = append(es, ent{p, 3})
			}
		}
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].p.CompetitionRank < es[j].p.CompetitionRank })
	for i, e := range es {
		if e.grp == 3 {
			continue
		}
		if e.p.CompetitionRank != i+1 {
			w.violate(c, "C10", "live-gap", "live ranks are not 1..%d without gaps: %s", len(es), c.rankDump())
			return
		}
		if i == 0 {
			continue
		}
		a, b := es[i-1], e
		bad := a.grp > b.grp
		if a.grp == b.grp {
			switch a.grp {
			case 0:
				bad = a.p.Chips < b.p.Chips || a.p.Chips == b.p.Chips && a.p.JoinAt > b.p.JoinAt
			case 1:
				bad = a.p.ReBuyWaitingAt < b.p.ReBuyWaitingAt
			case 2:
				bad = pos[a.p.PlayerID] < pos[b.p.PlayerID]
			}
		}
		if bad {
			w.violate(c, "C10", "live-order", "live rank %d (%s) and %d (%s) are the wrong way round: %s", i, a.p.PlayerID, i+1, b.p.PlayerID, c.rankDump())
			return
		}
	}
}

func (c *Comp) idleBut(n int) bool { return c.active <= n && c.w.s.Preempted == 0 && len(c.recs) == 0 }

func (c *Comp) rankDump() string {
	var s []string
	for _, p := range c.st.State.Players {
		s = append(s, fmt.Sprintf("%s:rank=%d chips=%d join=%d wait=%d %s", p.PlayerID, p.CompetitionRank, p.Chips, p.JoinAt%100000, p.ReBuyWaitingAt%100000, p.Status))
	}
	var r []string
	for _, x := range c.st.State.Rankings {
		r = append(r, x.PlayerID)
	}
	return strings.Join(s, "; ") + " | rankings " + strings.Join(r, ",")
}

func (c *Comp) onCashOut(id string, cp *pc.CompetitionPlayer) {
	c.cb(nil, func() {
		w := c.w
		w.checks["C16"]++
		c.cashN++
		player := cp.PlayerID
		w.log(c, "cash out %s %d", player, cp.Chips)
		if id != c.spec.ID {
			w.violate(c, "C18", "foreign-cashout-callback", "listener of %s was told about a cash-out in %s", c.spec.ID, id)
		}
		bp := c.players[player]
		if bp == nil {
			w.violate(c, "C16", "paid-twice", "%s is cashed out but is no longer in the competition", player)
			return
		}
		if cp.Chips != bp.chips() && !bp.fuzzy {
			key := "paid-chips"
			if c.flying("addon", player) || c.flying("buyin", player) || bp.lapped() {
				key = "paid-chips-overlap" // a purchase the table service has not answered yet
			}
			w.violate(c, "C16", key, "%s is cashed out with %d, holds %d", player, cp.Chips, bp.chips())
		}
		asked := len(bp.leaveReq) > 0 || bp.leaveFuzzy || c.flying("cashout", player)
		timedOut := bp.chips() == 0 && bp.busts > 0 && !time.Now().Before(bp.deadline.lo)
		if !asked && !timedOut {
			w.violate(c, "C16", "paid-unasked", "%s is cashed out with %d but did not ask to leave", player, cp.Chips)
		}
		if !c.endTime.IsZero() && time.Now().After(c.endTime) {
			w.violate(c, "C08", "cashout-after-end", "%s is cashed out after the competition ended", player)
		}
		c.rankDirty = true
		c.cashed[player] = time.Now()
		delete(c.players, player)
	})
}

// ---------------------------------------------------------------- table service side

func (c *Comp) onOverfull(method, table string, n, lim int) {
	c.w.violate(c, "C12", c.lap("overfull"), "%s puts %d players on a table with %d seats", method, n, lim)
}

func (c *Comp) onDoubleSeat(t *FTable, id, via string) {
	c.w.violate(c, "C12", c.lap("seated-twice"), "%s seats %s at table %d where the player already sits", via, id, t.ord)
}

func (c *Comp) checkBlinds(t *FTable, what string) {
	want := c.blindsOf(c.st.State.BlindState.CurrentLevelIndex)
	for i := range want {
		if t.level[i] != want[i] {
			c.w.violate(c, "C06", what, "table %d has blinds (level, ante, dealer, sb, bb) %v, level index %d has %v", t.ord, t.level, c.st.State.BlindState.CurrentLevelIndex, want)
			return
		}
	}
}

func (c *Comp) onTableCreate(t *FTable, s pokertable.TableSetting, asked int) {
	simrt.NoPreempt(func() {
		if c.st == nil {
			return
		}
		if !c.act.IsZero() && c.st.State.BlindState.CurrentLevelIndex >= 0 {
			c.w.checks["C06"]++
			if now := c.st.State.BlindState.CurrentLevelIndex; (asked == now || asked < 0) && !c.levelAtT.Equal(time.Now()) {
				c.checkBlinds(t, "created-blinds")
			}
		}
		if c.isMTT() {
			c.checkJoin(t, s.JoinPlayers, "CreateTable")
		}
	})
}

func (c *Comp) onJoin(t *FTable, join []pokertable.JoinPlayer, via string) {
	simrt.NoPreempt(func() { c.checkJoin(t, join, via) })
}

func (c *Comp) checkJoin(t *FTable, join []pokertable.JoinPlayer, via string) {
	w := c.w
	for _, j := range join {
		w.checks["C12"]++
		if j.RedeemChips <= 0 {
			w.violate(c, "C12", "seated-without-chips", "%s seats %s at table %d with %d chips", via, j.PlayerID, t.ord, j.RedeemChips)
		}
		cp := c.player(j.PlayerID)
		if cp == nil {
			p := "C12"
			if _, ref := c.refunded[j.PlayerID]; ref {
				p = "C05"
			}
			w.violate(c, p, "seated-unregistered", "%s seats %s who is not registered", via, j.PlayerID)
			continue
		}
		bp := c.players[j.PlayerID]
		if bp != nil && bp.fuzzy && bp.chips() != j.RedeemChips {
			// which of the two the stack contains shows only now
			bp.moveLap = true
		}
		if bp != nil && !bp.fuzzy && !bp.moveLap && !c.flying("buyin", j.PlayerID) && !c.flying("addon", j.PlayerID) && bp.chips() != j.RedeemChips {
			w.violate(c, "C12", "carried-chips", "%s seats %s with %d chips, the player holds %d", via, j.PlayerID, j.RedeemChips, bp.chips())
		} else if cp.Chips != j.RedeemChips {
			w.violate(c, "C12", "carried-chips", "%s seats %s with %d chips, the competition holds %d", via, j.PlayerID, j.RedeemChips, cp.Chips)
		}
		for _, o := range c.seatedAt(j.PlayerID) {
			if o != t {
				if c.leavingBust(o, j.PlayerID) {
					c.regOverlap = true
				}
				if c.regOverlap {
					c.twice[j.PlayerID] = true
				}
				w.violate(c, "C12", c.lap("seated-at-two"), "%s seats %s at table %d while at table %d", via, j.PlayerID, t.ord, o.ord)
			}
		}
	}
}

// bustSeated: somebody knocked out by a settlement still under way holds a seat.
func (c *Comp) bustSeated() bool {
	for _, rec := range c.recs {
		for _, id := range rec.busted {
			if rec.t.idx(id) >= 0 {
				return true
			}
		}
	}
	return false
}

func (c *Comp) onReserveFail(jp pokertable.JoinPlayer, err error) {
	simrt.NoPreempt(func() {
		c.w.log(c, "PlayerReserve %s fails: %v", jp.PlayerID, err)
		c.tblErr++
		if err == pokertable.ErrTableNoEmptySeats && c.isCT() {
			key := "ct-no-seat"
			if c.bustSeated() {
				key = "ct-no-seat-overlap"
			}
			c.w.violate(c, "C03", key, "the buy-in of %s was accepted but the table has no free seat", jp.PlayerID)
		}
	})
}

func (c *Comp) onRedeem(t *FTable, jp pokertable.JoinPlayer) {
	simrt.NoPreempt(func() {
		c.redeems[jp.PlayerID] = append(c.redeems[jp.PlayerID], jp.RedeemChips)
	})
}

func (c *Comp) onRedeemFail(jp pokertable.JoinPlayer, err error) {
	if c == nil {
		return
	}
	c.w.log(c, "PlayerRedeemChips %s fails: %v", jp.PlayerID, err)
	c.tblErr++
}

func (c *Comp) onLeave(t *FTable, id, via string) {
	simrt.NoPreempt(func() { c.checkLeave(t, id, via) })
}

func (c *Comp) checkLeave(t *FTable, id, via string) {
	w := c.w
	now := time.Now()
	chips, _ := t.stack(id)
	bp := c.players[id]
	w.log(c, "table %d %s leaves with %d", t.ord, id, chips)
	if c.st == nil {
		return
	}
	if c.isMTT() {
		if t.inHand && t.parts[id] {
			w.violate(c, "C12", "moved-mid-hand", "%s is taken off table %d in the middle of a hand", id, t.ord)
		}
		return
	}
	_, refunded := c.refunded[id]
	if refunded || c.flying("refund", id) {
		return
	}
	if c.isCash() {
		asked := bp == nil || len(bp.leaveReq) > 0 || bp.leaveFuzzy || c.flying("cashout", id)
		if t.inHand && t.parts[id] && !t.openedAt.After(t.leaveAsked) {
			w.violate(c, "C16", "left-mid-hand", "%s is taken off the table in the middle of a hand", id)
		}
		if asked {
			return
		}
		if chips > 0 {
			w.checks["C19"]++
			w.violate(c, "C19", "removed-with-chips", "%s is taken off the table holding %d chips without having asked to leave", id, chips)
			return
		}
	} else {
		if c.flying("quit", id) || bp != nil && bp.quit {
			return
		}
		if chips > 0 {
			w.checks["C19"]++
			key := "removed-with-chips"
			if bp != nil {
				key = bp.lapKey(key)
			}
			w.violate(c, "C19", key, "%s is taken off the table holding %d chips", id, chips)
			return
		}
		if bp == nil {
			return
		}
	}
	if bp.busts > 0 && bp.elim == nil && c.stop.IsZero() && c.endTime.IsZero() {
		w.checks["C19"]++
		if now.Before(bp.deadline.lo) && !c.flying("buyin", id) {
			w.violate(c, "C19", "removed-early", "%s is taken off the table at %s, may re-buy until %s", id, c.at(now), c.at(bp.deadline.lo))
		}
	}
}

func (c *Comp) at(t time.Time) string {
	return fmt.Sprintf("%.3fs", float64(t.Sub(c.w.t0).Microseconds())/1e6)
}

func (c *Comp) onEngineStart(t *FTable, kind string) {
	simrt.NoPreempt(func() {
		c.w.log(c, "table %d StartTableGame asked", t.ord)
		t.setups = append(t.setups, setupRec{at: time.Now(), gc: 0, kind: kind})
	})
}

func (c *Comp) checkNotBreak(t *FTable, what string) {
	c.w.checks["C15"]++
	// a request decided before the break may be held up for a moment
	since := time.Since(c.playUntil)
	held := since == 0 || len(c.w.s.Stats().Stalls) > 0 && since <= 3*time.Second
	if c.breaking() && !c.act.IsZero() && !c.blindTaint[t] && !held {
		c.w.violate(c, "C15", "asked-in-break", "%s for table %d during the break (level index %d)", what, t.ord, c.st.State.BlindState.CurrentLevelIndex)
	}
	if !c.endTime.IsZero() && c.endTime.Before(time.Now()) {
		c.w.violate(c, "C08", "asked-after-end", "%s for table %d after the competition ended", what, t.ord)
	}
}

func (c *Comp) onEngineSetup(t *FTable, gc int, parts map[string]int) {
	simrt.NoPreempt(func() {
		c.w.log(c, "table %d SetUpTableGame hand %d with %d", t.ord, gc, len(parts))
		t.setups = append(t.setups, setupRec{at: time.Now(), gc: gc, kind: "setup", n: len(parts)})
	})
}

// checkSetup judges a request to set up a hand at the moment it is made.
func (c *Comp) checkSetup(t *FTable, gc int, parts map[string]int) {
	simrt.NoPreempt(func() {
		w := c.w
		have := t.tb.State.GameCount
		w.checks["C15"]++
		if !(gc == have+1 || gc == have && (have == 0 || c.w.slowed() && time.Since(t.openedAt) <= 3*time.Second)) && !t.unreported() && !(t.inHand && gc == have) && c.backend <= 1 && c.atomic() {
			w.violate(c, "C15", "setup-count", "table %d has played %d hands and is asked to set up hand %d", t.ord, have, gc)
		}
		for _, id := range keysOf(parts) {
			if i := t.idx(id); i >= 0 && t.tb.State.PlayerStates[i].Bankroll <= 0 && !t.unreported() && c.backend == 0 && c.atomic() {
				w.violate(c, "C15", "setup-broke", "table %d is asked to set up a hand with %s who has no chips", t.ord, id)
			}
		}
	})
}

// waitingPause tells whether a pause is that of a table which has too few
// seated players to go on after a break (no hand of it is being settled).
func (c *Comp) waitingPause(t *FTable) bool {
	return !c.settling(t) && !t.inHand && t.canPlay() < max(2, c.meta.TableMinPlayerCount)
}

// settling tells whether a hand of the table is being settled.
func (c *Comp) settling(t *FTable) bool {
	for _, r := range c.recs {
		if r.t == t {
			return true
		}
	}
	return false
}

func (c *Comp) onPauseTable(t *FTable) {
	simrt.NoPreempt(func() {
		w := c.w
		w.checks["C13"]++
		if t.pausedN++; t.pausedN > 1 {
			// a further pause of a table whose hand was under way is harmless
			w.log(c, "table %d paused again", t.ord)
		}
		if c.st == nil || !c.atomic() {
			return
		}
		met, why := c.advanceMet()
		if !met && !c.advFuzzy() {
			w.violate(c, "C13", "paused-wrongly", "table %d is paused for advancement but %s", t.ord, why)
		}
	})
}

func (c *Comp) advFuzzy() bool {
	for _, bp := range c.bps() {
		if bp.fuzzy {
			return true
		}
	}
	return false
}

func (c *Comp) advanceMet() (bool, string) {
	if c.stop.IsZero() {
		return false, "registration is still open"
	}
	switch c.meta.AdvanceSetting.Rule {
	case pc.CompetitionAdvanceRule_BlindLevel:
		li := c.st.State.BlindState.CurrentLevelIndex
		if li < 0 {
			return false, "blinds not started"
		}
		lv := c.meta.Blind.Levels[li].Level
		for _, l := range c.meta.Blind.Levels[:li] {
			lv = max(lv, l.Level) // a break does not undo it
		}
		return lv >= c.meta.AdvanceSetting.BlindLevel, fmt.Sprintf("the blind level reached is %d, advancement is at level %d", lv, c.meta.AdvanceSetting.BlindLevel)
	case pc.CompetitionAdvanceRule_PlayerCount:
		return c.holders() < c.spec.AdvanceN, fmt.Sprintf("%d players remain, %d advance", c.holders(), c.spec.AdvanceN)
	}
	return false, "there is no advancement rule"
}

func (c *Comp) onCloseTable(t *FTable, at time.Time) {
	simrt.NoPreempt(func() {
		w := c.w
		if c.st == nil {
			return
		}
		if c.isMTT() && !c.ended() {
			w.checks["C12"]++
			if n := t.alive(); n > 0 {
				w.violate(c, "C12", "closed-with-players", "table %d is closed with %d players holding chips at it", t.ord, n)
			}
		}
		// a hand opened at this very moment is one the competition cannot know of yet
		if t.inHand && at.Sub(t.openedAt) > 100*time.Millisecond {
			w.violate(c, "C20", "closed-mid-hand", "table %d is closed in the middle of a hand", t.ord)
		}
	})
}

func (c *Comp) onHandOpen(t *FTable) {
	simrt.NoPreempt(func() {
		w := c.w
		now := time.Now()
		t.okSince = time.Time{}
		c.since(fmt.Sprintf("hand-%d", t.ord), false)
		t.setups = append(t.setups, setupRec{at: now, kind: "hand"})
		if c.st == nil {
			return
		}
		if c.breaking() && !c.act.IsZero() && c.atomic() && c.backend == 0 && !c.blindTaint[t] {
			w.checks["C15"]++
			w.violate(c, "C15", "hand-in-break", "table %d opens a hand during the break", t.ord)
		}
		if (c.isCT() || c.isCash()) && c.startUnix > 0 && now.Unix() > c.lateStart()+int64(c.meta.MaxDuration) && !c.ended() {
			c.handsAfterEnd++
			w.checks["C20"]++
			if c.handsAfterEnd > 1 {
				w.violate(c, "C20", "hands-after-end", "%d hands were opened after the end time", c.handsAfterEnd)
			}
		}
	})
}

func (c *Comp) afterDeliver(t *FTable, cl *pokertable.Table) {
	if c.w.s.Dead() || c.st == nil {
		return
	}
	simrt.NoPreempt(func() {
		c.dirty = true
		if c.isCash() && cl.State.Status == pokertable.TableStateStatus_TableGameSettled && !c.cashOver && c.startUnix > 0 &&
			time.Now().Unix() > c.lateStart()+int64(c.meta.MaxDuration) {
			c.cashOver = true
			c.w.checks["C20"]++
		}
		c.observe()
	})
}

// checkTableRanks runs right after a settlement was handed over.
func (c *Comp) checkTableRanks(rec *settleRec) {
	w := c.w
	if !c.atomic() {
		return
	}
	// a later report of the same players would have overwritten the ranks
	for _, o := range c.recs {
		if o.t == rec.t {
			return
		}
	}
	if rec.t.settledGC != rec.gc || c.ended() {
		return
	}
	type ent struct {
		id   string
		bank int64
		join int64
		rank int
	}
	var in []ent
	for _, id := range keysOf(rec.rank) {
		b := rec.rank[id]
		cp := c.player(id)
		if cp == nil || c.players[id] == nil || b != -1 && cp.JoinAt != rec.joined[id] || c.players[id].lastRec != rec {
			continue // gone, or a new entry after leaving
		}
		if len(c.seatedAt(id)) > 0 && c.seatedAt(id)[0] != rec.t {
			continue
		}
		if c.players[id].fuzzy || c.players[id].lapped() || c.flying("addon", id) || c.flying("buyin", id) {
			return // the table's stacks changed under the settlement
		}
		if b == -1 {
			w.checks["C10"]++
			if cp.TableRank != 0 {
				w.violate(c, "C10", "table-rank-sitter", "%s sat out hand %d of table %d but has table rank %d", id, rec.gc, rec.t.ord, cp.TableRank)
			}
			continue
		}
		in = append(in, ent{id, b, rec.joined[id], cp.TableRank})
	}
	sort.Slice(in, func(i, j int) bool {
		if in[i].rank != in[j].rank {
			return in[i].rank < in[j].rank
		}
		return in[i].id < in[j].id
	})
	if len(in) != len(rec.parts) {
		return
	}
	for i, e := range in {
		w.checks["C10"]++
		if e.rank != i+1 {
			w.violate(c, "C10", "table-rank-gap", "table ranks of hand %d at table %d are not 1..%d: %v", rec.gc, rec.t.ord, len(in), in)
			return
		}
		if i > 0 && (in[i-1].bank < e.bank || in[i-1].bank == e.bank && in[i-1].join > e.join) {
			w.violate(c, "C10", "table-rank-order", "table ranks of hand %d at table %d are in the wrong order: %v", rec.gc, rec.t.ord, in)
			return
		}
	}
}

// ---------------------------------------------------------------- quiescence

func (w *World) quiet() {
	w.quiets++
	for _, c := range w.comps {
		if c.created && c.st != nil {
			if c.eng != nil {
				if st := c.eng.GetCompetition(); st != nil {
					c.st = st
				}
			}
			c.quiet()
		}
	}
}

func (c *Comp) quiet() {
	w := c.w
	now := time.Now()
	c.observe()
	if c.released && !c.ended() {
		return // its tables report to nobody any more
	}
	c.liveness()
	if !c.idle() {
		return
	}
	c.refundBusy = false
	if !c.dirty && now.Sub(c.lastQuiet) < time.Second {
		return
	}
	c.dirty = false
	c.lastQuiet = now
	w.nExact++
	w.states[simrt.Hash(simrt.HashStr(string(c.st.State.Status)), simrt.HashStr(string(c.meta.Mode)), uint64(len(c.openTables())), uint64(len(c.st.State.Players)), uint64(c.holders()), uint64(int64(c.st.State.BlindState.CurrentLevelIndex)+2), uint64(len(c.st.State.Rankings)))] = struct{}{}
	c.inQuiet = true
	defer func() { c.inQuiet = false }()
	bad := len(w.viol)
	c.checkBook()
	c.checkStats()
	c.checkClock()
	c.checkStopped()
	c.checkRankings()
	c.checkLiveBook()
	c.checkSeats()
	c.checkWindows()
	c.checkCash()
	c.checkEnd()
	c.checkAudience()
	c.checkSeen()
	c.checkFailures()
	if len(w.viol) == bad {
		c.ev = nil
	}
}

// checkBook: chips, purchase totals and the set of registered players.
func (c *Comp) checkBook() {
	w := c.w
	if c.frozenObs != nil {
		return // compared against the frozen state instead
	}
	w.checks["C01"]++
	seen := map[string]bool{}
	for _, p := range c.st.State.Players {
		if seen[p.PlayerID] {
			w.violate(c, "C03", "registered-twice", "%s is registered twice", p.PlayerID)
			return
		}
		seen[p.PlayerID] = true
		bp := c.players[p.PlayerID]
		if bp == nil {
			pr := "C01"
			if _, ok := c.refunded[p.PlayerID]; ok {
				pr = "C05"
			} else if _, ok := c.cashed[p.PlayerID]; ok {
				pr = "C16"
			}
			w.violate(c, pr, "unknown-player", "%s is in the competition although no accepted buy-in put the player there", p.PlayerID)
			continue
		}
		if p.Chips != bp.chips() {
			if bp.fuzzy || c.ended() && c.endWhy.lap {
				continue // the final chips are judged once
			}
			w.violate(c, "C01", bp.lapKey("chips"), "%s holds %d chips, purchases of %d and hand results of %d make %d", bp.id, p.Chips, bp.redeemed, bp.delta, bp.chips())
		}
		if bp.unsure {
			continue
		}
		if p.TotalRedeemChips != bp.redeemed {
			w.violate(c, "C01", "redeemed", "%s has total redeemed chips %d, bought %d", bp.id, p.TotalRedeemChips, bp.redeemed)
		}
		if p.ReBuyTimes != bp.rebuys {
			w.violate(c, "C01", "rebuys", "%s has %d re-buys, made %d", bp.id, p.ReBuyTimes, bp.rebuys)
		}
		if p.AddonTimes != bp.addons {
			w.violate(c, "C01", "addons", "%s has %d add-ons, made %d", bp.id, p.AddonTimes, bp.addons)
		}
		if !c.isCash() && p.TotalBuyInUnits != bp.units {
			w.violate(c, "C01", "units", "%s has %d buy-in units, bought %d", bp.id, p.TotalBuyInUnits, bp.units)
		}
		if !c.isCash() {
			w.checks["C03"]++
			if p.ReBuyTimes > c.meta.ReBuySetting.MaxTime {
				w.violate(c, "C03", "rebuy-limit", "%s has re-bought %d times, the limit is %d", bp.id, p.ReBuyTimes, c.meta.ReBuySetting.MaxTime)
			}
		}
		if p.AddonTimes > c.meta.AddonSetting.MaxTime {
			w.violate(c, "C04", "addon-limit", "%s has %d add-ons, the limit is %d", bp.id, p.AddonTimes, c.meta.AddonSetting.MaxTime)
		}
	}
	for _, bp0 := range c.bps() {
		id := bp0.id
		if !seen[id] {
			pr := "C01"
			if c.isCash() {
				pr = "C16"
			}
			w.violate(c, pr, "lost-player", "%s bought in but is not in the competition any more", id)
		}
	}
	if !c.isCash() {
		if c.st.State.Statistic.TotalBuyInCount != c.units {
			w.violate(c, "C01", "total-buyin", "total buy-in count is %d, accepted purchases make %d", c.st.State.Statistic.TotalBuyInCount, c.units)
		}
		if c.st.State.Statistic.TotalAddonCount != c.addonN && !c.overtaken {
			w.violate(c, "C01", "total-addon", "total add-on count is %d, accepted purchases make %d", c.st.State.Statistic.TotalAddonCount, c.addonN)
		}
	}
	if c.isCT() && !c.ended() {
		n := 0
		for _, bp := range c.bps() {
			if bp.elim == nil {
				n++
			}
		}
		if n > c.meta.TableMaxSeatCount {
			w.violate(c, "C03", "ct-limit", "%d players are playing or waiting to re-buy, the table has %d seats", n, c.meta.TableMaxSeatCount)
		}
	}
	for _, id := range keysOf(c.refunded) {
		w.checks["C05"]++
		if ts := c.seatedAt(id); len(ts) > 0 {
			w.violate(c, "C05", "refunded-seated", "%s was refunded but sits at table %d", id, ts[0].ord)
		}
	}
	// what the tables hold equals what the competition accounts for
	if c.tblErr == 0 && !c.ended() && !c.released {
		for _, t := range c.openTables() {
			if t.inHand {
				continue
			}
			for _, ps := range t.tb.State.PlayerStates {
				bp := c.players[ps.PlayerID]
				if bp == nil || bp.fuzzy || c.twice[bp.id] {
					continue
				}
				if have, _ := t.stack(ps.PlayerID); have != bp.chips() && len(c.recs) == 0 && !t.unreported() {
					w.violate(c, "C01", bp.lapKey("table-chips"), "%s has %d chips at table %d, the competition accounts for %d", bp.id, have, t.ord, bp.chips())
				}
			}
		}
	}
}

func (t *FTable) unreported() bool { return t.settledGC > 0 && !t.c.reported[t][t.settledGC] }

// checkStats: hand counters.
func (c *Comp) checkStats() {
	w := c.w
	if c.ended() {
		return
	}
	for _, p := range c.st.State.Players {
		bp := c.players[p.PlayerID]
		if bp == nil {
			continue
		}
		w.checks["C11"]++
		w.checks["C02"]++
		s := &bp.st
		if bp.early {
			continue
		}
		if p.TotalGameCounts != s.Games {
			w.violate(c, "C02", "hands-applied", "%s has played %d hands, the competition counts %d", bp.id, s.Games, p.TotalGameCounts)
			w.violate(c, "C11", "hands", "%s has played %d hands, the competition counts %d", bp.id, s.Games, p.TotalGameCounts)
			continue
		}
		chk := func(name string, got, want int) {
			if got != want {
				w.violate(c, "C11", name, "%s: %s is %d, the hands played add up to %d", bp.id, name, got, want)
			}
		}
		chk("walks", int(p.TotalWalkTimes), int(s.Walk))
		chk("folds", p.TotalFoldTimes, s.Fold)
		chk("preflop folds", p.TotalPreflopFoldTimes, s.PreF)
		chk("flop folds", p.TotalFlopFoldTimes, s.FlopF)
		chk("turn folds", p.TotalTurnFoldTimes, s.TurnF)
		chk("river folds", p.TotalRiverFoldTimes, s.RiverF)
		chk("actions", p.TotalActionTimes, s.Action)
		chk("raises", p.TotalRaiseTimes, s.Raise)
		chk("calls", p.TotalCallTimes, s.Call)
		chk("checks", p.TotalCheckTimes, s.Check)
		chk("wins", p.TotalProfitTimes, s.Profit)
		chk("VPIP chances", p.TotalVPIPChances, s.VPIPc)
		chk("VPIP", p.TotalVPIPTimes, s.VPIP)
		chk("PFR chances", p.TotalPFRChances, s.PFRc)
		chk("PFR", p.TotalPFRTimes, s.PFR)
		chk("ATS chances", p.TotalATSChances, s.ATSc)
		chk("ATS", p.TotalATSTimes, s.ATS)
		chk("3B chances", p.Total3BChances, s.B3c)
		chk("3B", p.Total3BTimes, s.B3)
		chk("Ft3B chances", p.TotalFt3BChances, s.F3c)
		chk("Ft3B", p.TotalFt3BTimes, s.F3)
		chk("C/R chances", p.TotalCheckRaiseChances, s.CRc)
		chk("C/R", p.TotalCheckRaiseTimes, s.CR)
		chk("CBet chances", p.TotalCBetChances, s.CBc)
		chk("CBet", p.TotalCBetTimes, s.CB)
		chk("FtCB chances", p.TotalFtCBChances, s.FCc)
		chk("FtCB", p.TotalFtCBTimes, s.FC)
		chk("showdown chances", p.TotalShowdownWinningChances, s.SWc)
		chk("showdown wins", p.TotalShowdownWinningTimes, s.SW)
		if p.BestWinningPotChips != s.BestPot {
			w.violate(c, "C11", "best pot", "%s: best pot is %d, the hands won say %d", bp.id, p.BestWinningPotChips, s.BestPot)
		}
		if p.BestWinningPower != s.BestPower || s.BestPower > 0 && (fmt.Sprint(p.BestWinningCombo) != s.BestCombo || p.BestWinningType != s.BestType) {
			w.violate(c, "C11", "best hand", "%s: best winning hand is %d %s %v, the hands won say %d %s %s", bp.id, p.BestWinningPower, p.BestWinningType, p.BestWinningCombo, s.BestPower, s.BestType, s.BestCombo)
		}
	}
}

// checkClock: level by the schedule, tables told.
func (c *Comp) checkClock() {
	w := c.w
	if c.act.IsZero() || c.ended() || !c.precise() {
		return
	}
	now := time.Now()
	li := c.st.State.BlindState.CurrentLevelIndex
	want := c.levelAt(now.Unix())
	w.checks["C06"]++
	if li != want && !(now.Nanosecond() == 0 && li+1 == want && c.levelEnd(li) == now.Unix()) {
		w.violate(c, "C06", "level", "the level index is %d, the schedule dictates %d", li, want)
		return
	}
	if li > c.actLevel && c.levelSeen[li] == 0 && c.levelEnd(li-1) < now.Unix() && c.fine(5*time.Second) {
		w.violate(c, "C06", "unannounced", "the change to level index %d was not announced", li)
	}
	for _, t := range c.openTables() {
		if c.blindTaint[t] || !t.createdAt.Before(now) {
			continue
		}
		c.checkBlinds(t, "table-blinds")
		w.checks["C15"]++
		if c.breaking() && t.level[0] != -1 {
			w.violate(c, "C15", "break-untold", "table %d was not told about the break", t.ord)
		}
	}
}

// fine: no slow table service request was outstanding for a while.
func (c *Comp) fine(d time.Duration) bool { return true }

// checkStopped: registration closes once and knocks out the waiting.
func (c *Comp) checkStopped() {
	w := c.w
	if c.act.IsZero() || c.ended() {
		return
	}
	now := time.Now()
	st := c.st.State
	w.checks["C07"]++
	if c.precise() && c.schedStopped(now.Unix()) && c.stop.IsZero() {
		li := st.BlindState.CurrentLevelIndex
		edge := now.Nanosecond() == 0 && li > 0 && c.levelEnd(li-1) == now.Unix()
		if !edge {
			w.violate(c, "C07", "not-stopped", "level index %d is past the last buy-in level index %d but the status is %s", li, c.meta.Blind.FinalBuyInLevelIndex, st.Status)
		}
	}
	if c.stop.IsZero() {
		return
	}
	inR := map[string]int{}
	for _, r := range st.Rankings {
		inR[r.PlayerID]++
	}
	for _, id := range c.stopWaiters {
		cp := c.player(id)
		if cp == nil {
			continue
		}
		if cp.Status != pc.CompetitionPlayerStatus_Knockout {
			w.violate(c, "C07", "waiter-not-out", "%s was waiting to re-buy when registration closed but is %s", id, cp.Status)
		}
		if inR[id] != 1 {
			w.violate(c, "C07", "waiter-unranked", "%s was waiting to re-buy when registration closed and appears %d times in the rankings", id, inR[id])
		}
		if c.isCT() && len(c.seatedAt(id)) > 0 {
			w.violate(c, "C07", "waiter-seated", "%s was waiting to re-buy when registration closed but still sits at the table", id)
		}
	}
	for _, cp := range st.Players {
		bp := c.players[cp.PlayerID]
		if bp == nil || bp.fuzzy {
			continue
		}
		if bp.chips() > 0 && (cp.Status == pc.CompetitionPlayerStatus_Knockout || inR[cp.PlayerID] > 0) {
			w.violate(c, "C07", bp.lapKey("holder-out"), "%s holds %d chips but was knocked out", bp.id, bp.chips())
		}
	}
	if !c.isCash() && !c.stopChecked && now.After(c.stop) {
		c.stopChecked = true
	}
}

// checkRankings: nobody is entered twice while the competition runs.
func (c *Comp) checkRankings() {
	w := c.w
	if c.ended() {
		return
	}
	seen := map[string]bool{}
	for _, r := range c.st.State.Rankings {
		w.checks["C02"]++
		if seen[r.PlayerID] {
			w.violate(c, "C02", "ranked-twice", "%s has two ranking entries", r.PlayerID)
			w.violate(c, "C09", "ranked-twice", "%s has two ranking entries", r.PlayerID)
		}
		seen[r.PlayerID] = true
	}
	for _, bp := range c.bps() {
		id := bp.id
		if bp.fuzzy || bp.lapped() {
			continue
		}
		if bp.elim != nil && !seen[id] {
			w.violate(c, "C02", "elim-missing", "%s was eliminated but has no ranking entry", id)
		}
		if bp.elim == nil && seen[id] {
			w.violate(c, "C02", "elim-extra", "%s has a ranking entry but was not eliminated", id)
		}
	}
}

// before: the rules place a strictly above b. -1 unknown
func (c *Comp) above(a, b *BP) bool {
	ca, cb := a.chips(), b.chips()
	if ca > 0 || cb > 0 {
		if ca != cb {
			return ca > cb
		}
		return a.joinAt < b.joinAt
	}
	ea, eb := a.elim, b.elim
	switch {
	case ea == nil && eb == nil: // both waiting
		if a.bust == nil || b.bust == nil {
			return false
		}
		return a.bust.lo.Unix() > b.bust.hi.Unix()
	case ea == nil:
		return true
	case eb == nil:
		return false
	}
	if ea.batch == eb.batch {
		return a.joinAt < b.joinAt
	}
	return ea.lo.After(eb.hi)
}

func (c *Comp) anyFuzzy() bool {
	for _, bp := range c.bps() {
		if bp.fuzzy || bp.lapped() || c.twice[bp.id] || c.quitRace[bp.id] {
			return true
		}
	}
	return false
}

// checkLiveBook: live ranks against the book.
func (c *Comp) checkLiveBook() {
	w := c.w
	if c.ended() || c.rankDirty || c.anyFuzzy() || len(c.players) == 0 {
		return
	}
	w.checks["C10"]++
	list := make([]*BP, 0, len(c.players))
	rank := map[string]int{}
	for _, p := range c.st.State.Players {
		bp := c.players[p.PlayerID]
		if bp == nil {
			return
		}
		list = append(list, bp)
		rank[bp.id] = p.CompetitionRank
	}
	sort.SliceStable(list, func(i, j int) bool { return rank[list[i].id] < rank[list[j].id] })
	for i, bp := range list {
		if rank[bp.id] != i+1 {
			w.violate(c, "C10", "gap", "ranks are not 1..%d: %s", len(list), c.rankDump())
			return
		}
		for j := 0; j < i; j++ {
			if c.above(bp, list[j]) {
				w.violate(c, "C10", "order", "%s (rank %d) must rank above %s (rank %d): %s", bp.id, i+1, list[j].id, j+1, c.rankDump())
				return
			}
		}
	}
}

// misplaced reports a player at a wrong place; for players who were refunded
// earlier that is also a refund that left something behind.
func (c *Comp) misplaced(id, key, f string, a ...interface{}) {
	c.w.violate(c, "C12", key, f, a...)
	if c.cameBack[id] {
		c.w.violate(c, "C05", "leftover", "after a refund and a new entry "+f, a...)
	}
}

// checkSeats: MTT seating.
func (c *Comp) checkSeats() {
	w := c.w
	if !c.isMTT() {
		c.checkPlaces()
		return
	}
	if c.act.IsZero() || c.ended() {
		return
	}
	queue, qok := c.queued()
	for _, bp := range c.bps() {
		id := bp.id
		if bp.chips() <= 0 || bp.fuzzy || c.twice[id] {
			continue
		}
		w.checks["C12"]++
		cp := c.player(id)
		if cp == nil {
			continue
		}
		ts := c.seatedAt(id)
		switch {
		case len(ts) > 1:
			c.misplaced(id, "two-tables", "%s sits at tables %d and %d", id, ts[0].ord, ts[1].ord)
		case len(ts) == 1:
			t := ts[0]
			ps := t.tb.State.PlayerStates[t.idx(id)]
			if d := c.since("seat-"+id, cp.CurrentTableID != t.tb.ID || cp.CurrentSeat != ps.Seat || cp.Status != pc.CompetitionPlayerStatus_Playing); d >= 2*time.Second {
				c.misplaced(id, "wrong-seat", "%s sits at table %d seat %d, the competition says table %q seat %d status %s", id, t.ord, ps.Seat, cp.CurrentTableID, cp.CurrentSeat, cp.Status)
			}
			if queue[id] {
				w.violate(c, "C12", "seated-and-waiting", "%s sits at table %d and is in the waiting queue too", id, t.ord)
			}
			if c.tblErr == 0 && !t.inHand && !t.unreported() && !bp.lapped() {
				if have, _ := t.stack(id); have != bp.chips() {
					w.violate(c, "C12", "chips-at-table", "%s has %d chips at table %d, the competition accounts for %d", id, have, t.ord, bp.chips())
				}
			}
			c.since("lost-"+id, false)
			c.since("named-"+id, false)
			c.since("unfit-"+id, false)
		default:
			c.since("seat-"+id, false)
			named := cp.Status == pc.CompetitionPlayerStatus_WaitingTableBalancing && (cp.CurrentTableID != "" || cp.CurrentSeat != -1)
			if d := c.since("named-"+id, named); d >= 10*time.Second {
				w.violate(c, "C12", "waiting-named", "%s waits for a table, the competition says table %q seat %d", id, cp.CurrentTableID, cp.CurrentSeat)
			}
			unfit := cp.Status != pc.CompetitionPlayerStatus_WaitingTableBalancing && cp.Status != pc.CompetitionPlayerStatus_Playing
			if d := c.since("unfit-"+id, unfit); d >= 2*time.Second {
				w.violate(c, "C12", "wait-status", "%s holds %d chips and sits at no table, the competition says status %s", id, bp.chips(), cp.Status)
			}
			lost := cp.Status != pc.CompetitionPlayerStatus_WaitingTableBalancing || qok && !queue[id]
			if d := c.since("lost-"+id, lost); d >= 10*time.Second {
				c.misplaced(id, "lost", "%s holds %d chips but sits at no open table and is not waiting for one (status %s, table %q)", id, bp.chips(), cp.Status, cp.CurrentTableID)
			}
		}
	}
}

// checkWindows: re-buy windows and seats of busted players (CT, cash).
func (c *Comp) checkWindows() {
	w := c.w
	if c.isMTT() || c.ended() || !c.stop.IsZero() || c.act.IsZero() {
		return
	}
	now := time.Now()
	for _, bp := range c.bps() {
		id := bp.id
		if bp.busts == 0 || bp.chips() > 0 || bp.elim != nil || bp.fuzzy || len(bp.leaveReq) > 0 || bp.leaveFuzzy || c.quitRace[bp.id] {
			continue
		}
		cp := c.player(id)
		if cp == nil {
			continue
		}
		w.checks["C19"]++
		seats := c.seatedAt(id)
		if now.Before(bp.deadline.lo) && !bp.quit {
			if cp.ReBuyEndAt < bp.deadline.lo.Unix() || cp.ReBuyEndAt > bp.deadline.hi.Unix() {
				w.violate(c, "C19", "deadline", "%s busted at %d..%d, the window is %ds, the re-buy deadline is %d", id, bp.bust.lo.Unix(), bp.bust.hi.Unix(), c.meta.ReBuySetting.WaitingTime, cp.ReBuyEndAt)
			}
			if len(seats) == 0 {
				w.violate(c, "C19", "seat-lost", "%s may re-buy until %s but has no seat any more at %s", id, c.at(bp.deadline.lo), c.at(now))
			}
		}
		if now.After(bp.deadline.hi.Add(6*time.Second)) && !c.flying("quit", id) {
			if len(seats) > 0 {
				w.violate(c, "C19", "seat-kept", "the re-buy window of %s ended at %s but the seat is still held at %s", id, c.at(bp.deadline.hi), c.at(now))
			}
			if c.isCash() {
				w.violate(c, "C19", "not-cashed-out", "the re-buy window of %s ended at %s but the player is still in the cash game at %s", id, c.at(bp.deadline.hi), c.at(now))
			}
		}
	}
}

// checkCash: leave requests.
func (c *Comp) checkCash() {
	w := c.w
	if !c.isCash() || c.ended() {
		return
	}
	for _, bp := range c.bps() {
		id := bp.id
		if len(bp.leaveReq) == 0 {
			continue
		}
		w.checks["C16"]++
		if bp.leaveSet > 0 {
			w.violate(c, "C16", "unpaid", "%s asked to leave at %s, a hand has ended since, and the player is still there", id, c.at(bp.leaveReq[0]))
		}
		free := c.st.State.Status == pc.CompetitionStateStatus_Registering
		for _, t := range c.openTables() {
			if t.tb.State.Status == pokertable.TableStateStatus_TablePausing && !t.inHand {
				free = true
			}
		}
		if d := c.since("leave-"+id, free); d >= 10*time.Second {
			w.violate(c, "C16", "unpaid-idle", "%s asked to leave at %s, no hand is being played, and the player is still there", id, c.at(bp.leaveReq[0]))
		}
	}
	for _, id := range keysOf(c.cashed) {
		w.checks["C16"]++
		if ts := c.seatedAt(id); len(ts) > 0 && c.players[id] == nil {
			if d := c.since("cashed-"+id, true); d >= 3*time.Second {
				w.violate(c, "C16", "paid-still-seated", "%s was cashed out but still sits at the table", id)
			}
		} else {
			c.since("cashed-"+id, false)
		}
	}
}

// checkEnd: final rankings and the frozen end state.
func (c *Comp) checkEnd() {
	w := c.w
	if !c.ended() {
		return
	}
	if c.ends == 0 {
		w.violate(c, "C08", "unsettled-end", "the competition ended without being settled")
	}
	snap := c.snapshot()
	if c.frozenObs == nil {
		c.checkFinal()
		// the book must agree one last time
		for _, p := range c.st.State.Players {
			if bp := c.players[p.PlayerID]; bp != nil && !bp.fuzzy && p.Chips != bp.chips() {
				if c.endWhy.lap {
					w.violate(c, "C09", c.endKey("chips"), "%s ends with %d chips, purchases and hand results make %d", bp.id, p.Chips, bp.chips())
					continue
				}
				w.violate(c, "C01", bp.lapKey("final-chips"), "%s ends with %d chips, purchases and hand results make %d", bp.id, p.Chips, bp.chips())
			}
		}
		c.frozenObs = snap
		return
	}
	w.checks["C08"]++
	f := c.frozenObs
	diff := ""
	switch {
	case f.status != snap.status:
		diff = fmt.Sprintf("status %s -> %s", f.status, snap.status)
	case f.endAt != snap.endAt:
		diff = fmt.Sprintf("end time %d -> %d", f.endAt, snap.endAt)
	case f.ranks != snap.ranks:
		diff = fmt.Sprintf("rankings %s -> %s", f.ranks, snap.ranks)
	case len(f.players) != len(snap.players):
		diff = fmt.Sprintf("%d players -> %d", len(f.players), len(snap.players))
	default:
		for _, id := range keysOf(f.players) {
			a := f.players[id]
			if b := snap.players[id]; a != b {
				diff = fmt.Sprintf("%s: %s -> %s", id, a, b)
			}
		}
	}
	if diff != "" {
		w.violate(c, "C08", "not-frozen", "changed after the end: %s", diff)
	}
}

func (c *Comp) snapshot() *frozen {
	s := c.st.State
	f := &frozen{status: s.Status, endAt: s.EndAt, startAt: s.StartAt, players: map[string]string{}, at: time.Now()}
	for _, r := range s.Rankings {
		f.ranks += fmt.Sprintf("%s:%d ", r.PlayerID, r.FinalChips)
	}
	for _, p := range s.Players {
		f.players[p.PlayerID] = fmt.Sprintf("chips=%d redeemed=%d units=%d rebuys=%d addons=%d rank=%d", p.Chips, p.TotalRedeemChips, p.TotalBuyInUnits, p.ReBuyTimes, p.AddonTimes, p.CompetitionRank)
	}
	return f
}

// endKey keeps what is wrong with an end that overlapped a settlement or a
// purchase apart.
func (c *Comp) endKey(key string) string {
	if c.endWhy.lap {
		return "close-overlap"
	}
	return key
}

func (c *Comp) checkFinal() {
	w := c.w
	if statusRank(c.endWhy.prev) < 2 {
		return
	}
	w.checks["C09"]++
	st := c.st.State
	place := map[string]int{}
	for i, r := range st.Rankings {
		if _, dup := place[r.PlayerID]; dup {
			w.violate(c, "C09", c.endKey("twice"), "%s is in the final rankings twice", r.PlayerID)
			return
		}
		place[r.PlayerID] = i + 1
		p := c.player(r.PlayerID)
		if p == nil {
			if c.isCash() {
				continue
			}
			w.violate(c, "C09", c.endKey("stranger"), "%s is in the final rankings but not registered", r.PlayerID)
			continue
		}
		if r.FinalChips != p.Chips {
			w.violate(c, "C09", c.endKey("final-chips"), "%s is ranked with %d chips but holds %d", r.PlayerID, r.FinalChips, p.Chips)
		}
		if p.CompetitionRank != i+1 && !c.isCash() {
			w.violate(c, "C09", c.endKey("rank-field"), "%s is in place %d but has competition rank %d", r.PlayerID, i+1, p.CompetitionRank)
		}
	}
	for _, bp0 := range c.bps() {
		id := bp0.id
		if place[id] == 0 {
			w.violate(c, "C09", c.endKey("missing"), "%s is registered but not in the final rankings", id)
			return
		}
	}
	if c.anyFuzzy() {
		return
	}
	for _, a := range c.bps() {
		for _, b := range c.bps() {
			if place[a.id] > place[b.id] && c.above(a, b) {
				w.violate(c, "C09", c.endKey("order"), "%s (chips %d, place %d) must be above %s (chips %d, place %d)", a.id, a.chips(), place[a.id], b.id, b.chips(), place[b.id])
				return
			}
		}
		post := a.chips() > 0 || a.elim != nil && a.elim.post
		if post && !c.isCash() {
			if len(c.notified[a.id]) == 0 {
				w.violate(c, "C09", c.endKey("not-notified"), "%s finished in place %d without a final-rank notification", a.id, place[a.id])
			} else if told := c.notified[a.id]; told[len(told)-1] != place[a.id] {
				w.violate(c, "C09", c.endKey("notified-rank"), "%s finished in place %d but was notified of %d", a.id, place[a.id], told[len(told)-1])
			}
		}
	}
}

// ---------------------------------------------------------------- progress

func (c *Comp) liveness() {
	w := c.w
	now := time.Now()
	for cr := range c.inFlight {
		if now.Sub(cr.lo) > 90*time.Second && w.failing && c.nested == 0 {
			w.violate(c, "C25", "call-stuck", "%s of %q has not returned for %s after the table service failed", cr.kind, cr.player, now.Sub(cr.lo).Round(time.Second))
		}
		if now.Sub(cr.lo) > 90*time.Second && c.nested == 0 {
			w.violate(c, "C14", "call-stuck", "%s of %q has not returned for %s", cr.kind, cr.player, now.Sub(cr.lo).Round(time.Second))
		}
	}
	for r := range c.nests {
		if now.Sub(r.lo) > 90*time.Second {
			w.violate(c, "C14", "nested-report-stuck", "hand %d of table %d (or the pause after it) was first reported inside a request the competition made to that table, and handling it has been stuck for %s", r.gc, r.t.ord, now.Sub(r.lo).Round(time.Second))
		}
	}
	for _, r := range c.recs {
		if now.Sub(r.lo) > 90*time.Second {
			if c.nested > 0 {
				continue // waits for the nested one
			}
			if w.failing && c.nested == 0 {
				w.violate(c, "C25", "report-stuck", "the report of hand %d at table %d has not been handled for %s after the table service failed", r.gc, r.t.ord, now.Sub(r.lo).Round(time.Second))
			}
			w.violate(c, "C14", "report-stuck", "the report of hand %d at table %d has not been handled for %s", r.gc, r.t.ord, now.Sub(r.lo).Round(time.Second))
		}
	}
	st := c.st.State
	if c.ended() {
		return
	}
	if len(c.nests) > 0 {
		// waits for the nested report; the timers start anew after it
		clear(c.sinces)
		return
	}
	run := c.running()
	minP := max(2, c.meta.TableMinPlayerCount)
	brk := run && c.breaking()
	over := c.isCT() && c.startUnix > 0 && now.Unix() >= c.startUnix+int64(c.meta.MaxDuration) || c.cashOver
	inPlay, waiting := false, false
	for _, t := range c.openTables() {
		ready := 0
		for _, p := range t.tb.State.PlayerStates {
			if p.IsIn && p.Bankroll > 0 {
				ready++
			}
		}
		inPlay = inPlay || t.inHand
		waiting = waiting || t.standby0()
		if run && ready >= minP {
			w.checks["C14"]++
		}
		stuck := run && !brk && !over && ready >= minP && !t.advP && !t.inHand && !c.blindTaint[t] && c.nested == 0
		if d := c.since(fmt.Sprintf("hand-%d", t.ord), stuck); d > 90*time.Second {
			key := "no-hand"
			if t.tb.State.GameCount == 0 && c.refundLap {
				key = "no-hand-refund-overlap" // a player set up for the first hand was refunded while it was asked for
			}
			if f := c.w.faults; t.late || f["slow-before/UpdateBlind"]+f["slow-after/UpdateBlind"] > 0 {
				key = "no-hand-late-blind" // asked to go on before it was told the new blinds
			}
			w.violate(c, "C14", key, "table %d has %d ready players but no hand has been opened for %s (table %s)", t.ord, ready, d.Round(time.Second), t.tb.State.Status)
		}
		if c.isMTT() {
			empty := run && c.nested == 0 && len(t.tb.State.PlayerStates) == 0 && t.tb.State.GameCount > 0 && !c.settling(t)
			if d := c.since(fmt.Sprintf("empty-%d", t.ord), empty); d > 15*time.Second {
				w.violate(c, "C13", "empty-open", "table %d has no players but is still open", t.ord)
			}
		}
	}
	c.breakLiveness(now)
	// starts by itself
	if st.Status == pc.CompetitionStateStatus_Registering {
		due := false
		switch {
		case c.isMTT():
			due = c.startN > 0 && len(c.players) >= c.meta.MinPlayerCount
			if c.startSet > 0 {
				if d := c.since("mtt-start", now.Unix() >= c.startSet && c.startN == 0); d >= 5*time.Second {
					w.violate(c, "C14", "not-started", "the MTT was scheduled for %d and has not started", c.startSet)
				}
			}
		default:
			ready := 0
			for _, t := range c.openTables() {
				for _, p := range t.tb.State.PlayerStates {
					if p.IsIn && p.Bankroll > 0 {
						ready++
					}
				}
			}
			due = ready >= c.meta.MinPlayerCount && (c.startSet <= 0 || now.Unix() >= c.startSet)
		}
		if d := c.since("start", due); d >= 10*time.Second {
			w.violate(c, "C14", "not-started", "all conditions to start have held for %s but the competition is still registering (start time %d, started=%v)", d.Round(time.Second), c.startSet, c.startN > 0)
		}
		if now.Unix() < c.disableAt || !c.disableSeen {
			c.disableFull = len(c.players) >= c.meta.MinPlayerCount || len(c.st.State.Players) >= c.meta.MinPlayerCount
		}
		c.disableSeen = now.Unix() >= c.disableAt
		if d := c.since("disable", c.startN == 0 && c.disableSeen && !c.disableFull && len(c.players) < c.meta.MinPlayerCount && c.disableFew()); d >= 5*time.Second {
			w.violate(c, "C20", "not-auto-ended", "visible until %d with %d players (minimum %d) but not ended", c.disableAt, len(c.players), c.meta.MinPlayerCount)
		}
	}
	if d := c.since("cash-over", run && c.cashOver && !inPlay && c.active == 0); d >= 30*time.Second {
		w.violate(c, "C20", "cash-not-ended", "a hand was settled after the time limit and none has been in play for %s, but the cash game has not ended", d.Round(time.Second))
	}
	if c.isCT() && run {
		if d := c.since("ct-over", over && now.Unix() > c.lateStart()+int64(c.meta.MaxDuration) && !inPlay && c.active == 0 && len(c.blindTaint) == 0 && !(brk && waiting)); d >= 30*time.Second {
			w.violate(c, "C20", "ct-not-ended", "the end time passed, no hand has been in play for %s, and the CT has not ended", d.Round(time.Second))
		}
		alive := 0
		for _, t := range c.openTables() {
			alive += t.alive()
		}
		if d := c.since("ct-few", !c.stop.IsZero() && alive < minP && !inPlay); d >= 30*time.Second {
			w.violate(c, "C20", "ct-few-left", "registration is closed and only %d players with chips are left, but the CT has not ended for %s", alive, d.Round(time.Second))
		}
		if d := c.since("ct-few7", !c.stop.IsZero() && c.handsSince(c.stop) == 0 && alive < 2 && !inPlay); d >= 10*time.Second {
			w.violate(c, "C07", "no-end-at-stop", "registration closed with %d players with chips left but the CT has not ended for %s", alive, d.Round(time.Second))
		}
	}
	if c.isMTT() && run {
		h := c.holders()
		if d := c.since("mtt-one", !c.stop.IsZero() && !c.hasAdvance() && h <= 1 && !inPlay && !c.anyFuzzy()); d >= 30*time.Second {
			w.violate(c, "C13", "not-ended", "%d player holds all chips, registration is closed, and the MTT has not ended for %s", h, d.Round(time.Second))
		}
		nT, alive := 0, 0
		allP := true
		for _, t := range c.openTables() {
			nT++
			alive += t.alive()
			if !t.advP {
				allP = false
			}
		}
		if d := c.since("mtt-adv", c.hasAdvance() && !c.stop.IsZero() && nT > 0 && allP && !inPlay); d >= 15*time.Second {
			w.violate(c, "C13", "adv-not-ended", "all %d tables are paused for advancement but the MTT has not ended for %s", nT, d.Round(time.Second))
		}
		if d := c.since("mtt-few7", !c.stop.IsZero() && c.handsSince(c.stop) == 0 && (nT == 0 || nT == 1 && alive < 2) && !inPlay && h < 2); d >= 10*time.Second {
			w.violate(c, "C07", "no-end-at-stop", "registration closed with fewer than two players left but the MTT has not ended for %s", d.Round(time.Second))
		}
	}
}

// disableFew: the competition had too few players for the whole time since the
// visibility period ended.
func (c *Comp) disableFew() bool { return !c.flying("", "") }

func (c *Comp) handsSince(t time.Time) int {
	n := 0
	for _, tb := range c.order {
		for _, s := range tb.setups {
			if s.kind == "hand" && s.at.After(t) {
				n++
			}
		}
	}
	return n
}

// breakLiveness: once a break is over every table with enough ready players is
// asked to go on, once.
func (c *Comp) breakLiveness(now time.Time) {
	if c.act.IsZero() || !c.running() || !c.precise() {
		return
	}
	w := c.w
	for i, l := range c.meta.Blind.Levels {
		if l.Level != -1 || i < c.actLevel {
			continue
		}
		e := c.levelEnd(i)
		if e == 0 || now.Unix() < e+8 || i+1 >= len(c.meta.Blind.Levels) || c.meta.Blind.Levels[i+1].Level == -1 {
			continue
		}
		key := fmt.Sprintf("break-%d", i)
		if c.brkCount[key] > 0 {
			continue
		}
		if e2 := c.levelEnd(i + 1); e2 != 0 && e2 <= e+8 && i+2 < len(c.meta.Blind.Levels) && c.meta.Blind.Levels[i+2].Level == -1 {
			c.brkCount[key] = 1
			continue
		}
		c.brkCount[key] = 1
		end := time.Unix(e, 0)
		for _, t := range c.openTables() {
			if t.advP || !t.createdAt.Before(end) {
				continue
			}
			// it must have been standing still, with enough players, at the end of the break
			q := c.brkReady[i][t]
			if q == 0 {
				continue
			}
			asked := 0
			for _, s := range t.setups {
				if !s.at.Before(end) && s.at.Before(end.Add(8*time.Second)) {
					asked++
				}
			}
			w.checks["C15"]++
			if asked == 0 && c.nested == 0 && !c.blindTaint[t] && !(c.isCT() && now.Unix() >= c.startUnix+int64(c.meta.MaxDuration)) {
				w.violate(c, "C15", "not-resumed", "the break (level index %d) ended at %d; table %d has %d ready players and was not asked to go on", i, e, t.ord, q)
			}
		}
	}
	// the table may run short of players between the end of the break and the
	// moment it is asked to go on
	for i, m := range c.brkReady {
		e := c.levelEnd(i)
		if e == 0 || now.Unix() < e || now.Unix() > e+3 {
			continue
		}
		for t := range m {
			if t.canPlay() < max(2, c.meta.TableMinPlayerCount) {
				delete(m, t)
			}
		}
	}
	// remember who was ready just before the end of the break
	li := c.st.State.BlindState.CurrentLevelIndex
	if li >= 0 && c.breaking() {
		if c.brkReady[li] == nil {
			c.brkReady[li] = map[*FTable]int{}
		}
		for _, t := range c.openTables() {
			ready := 0
			for _, p := range t.tb.State.PlayerStates {
				if p.IsIn && p.Bankroll > 0 {
					ready++
				}
			}
			if ready >= max(2, c.meta.TableMinPlayerCount) && !t.inHand && !t.standby0() && !t.opening {
				c.brkReady[li][t] = ready
			} else {
				delete(c.brkReady[li], t)
			}
		}
	}
}

// bps lists the players of the reference model in the order they joined.
func (c *Comp) bps() []*BP {
	if c.bpsSeq == c.seq && len(c.bpsL) == len(c.players) {
		return c.bpsL
	}
	l := make([]*BP, 0, len(c.players))
	for _, bp := range c.players {
		l = append(l, bp)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].seq < l[j].seq })
	c.bpsL, c.bpsSeq = l, c.seq
	return l
}

func keysOf[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (t *FTable) canPlay() int {
	n := 0
	for _, p := range t.tb.State.PlayerStates {
		if p.IsIn && p.Bankroll > 0 {
			n++
		}
	}
	return n
}

func (t *FTable) standby0() bool {
	return t.tb.State.Status == pokertable.TableStateStatus_TableGameStandby
}

func digest(v interface{}) string {
	d, _ := json.Marshal(v)
	return string(d)
}

// slowCreate tells whether the table service was made to answer a table
// creation late, which delays what the competition does around it.
func (c *Comp) slowCreate() bool {
	f := c.w.faults
	return f["slow-before/CreateTable"]+f["slow-after/CreateTable"] > 0
}

// lap names a seating breach apart when a settlement was still moving players
// while another settlement or a buy-in seated some: these are not serialised
// (see known-findings).
func (c *Comp) lap(key string) string {
	if c.regOverlap {
		return key + "-overlap"
	}
	return key
}

// lateStart: when the competition or, where the table service was slow, its
// table started.
func (c *Comp) lateStart() int64 {
	s := c.startUnix
	for _, t := range c.order {
		s = max(s, t.tb.State.StartAt)
	}
	return s
}

// leavingBust: the player busted at t and the settlement that takes the player
// off it is still under way.
func (c *Comp) leavingBust(t *FTable, id string) bool {
	i := t.idx(id)
	if i < 0 || t.tb.State.PlayerStates[i].Bankroll > 0 {
		return false
	}
	for _, r := range c.recs {
		if r.t == t {
			return true
		}
	}
	return false
}

// slowed: some request to a table or some thread was held up in this run.
func (w *World) slowed() bool {
	if len(w.s.Stats().Stalls) > 0 {
		return true
	}
	for k := range w.faults {
		if strings.HasPrefix(k, "slow-") {
			return true
		}
	}
	return false
}

// checkAudience: the head counts the competition publishes, and what somebody who
// only listens to the player updates knows.
func (c *Comp) checkAudience() {
	w := c.w
	w.checks["C23"]++
	n := map[pc.CompetitionPlayerStatus]int{}
	for _, p := range c.st.State.Players {
		n[p.Status]++
	}
	s := c.st.State.Statistic
	for _, x := range []struct {
		st  pc.CompetitionPlayerStatus
		got int
		key string
	}{
		{pc.CompetitionPlayerStatus_Playing, s.PlayingPlayerCount, "playing"},
		{pc.CompetitionPlayerStatus_WaitingTableBalancing, s.WaitingTableBalancingPlayerCount, "waiting"},
		{pc.CompetitionPlayerStatus_Knockout, s.KnockoutPlayerCount, "knockout"},
		{pc.CompetitionPlayerStatus_ReBuyWaiting, s.ReBuyWaitingPlayerCount, "rebuying"},
	} {
		if x.got != n[x.st] {
			w.violate(c, "C23", "count-"+x.key, "%d players are %s but the published count is %d", n[x.st], x.st, x.got)
		}
	}
	w.checks["C24"]++
	for _, p := range c.st.State.Players {
		h, ok := c.heard[p.PlayerID]
		if !ok {
			w.violate(c, "C24", "never", "no player update for %s", p.PlayerID)
			continue
		}
		what, was, is := "", interface{}(nil), interface{}(nil)
		for _, x := range []struct {
			key     string
			was, is interface{}
		}{
			{"status", h.Status, p.Status}, {"chips", h.Chips, p.Chips},
			{"seat", h.CurrentSeat, p.CurrentSeat}, {"table", h.CurrentTableID, p.CurrentTableID},
			{"rebuys", h.ReBuyTimes, p.ReBuyTimes}, {"addons", h.AddonTimes, p.AddonTimes},
			{"units", h.TotalBuyInUnits, p.TotalBuyInUnits}, {"redeemed", h.TotalRedeemChips, p.TotalRedeemChips},
			{"hands", h.TotalGameCounts, p.TotalGameCounts},
			{"rebuying", h.IsReBuying, p.IsReBuying}, {"deadline", h.ReBuyEndAt, p.ReBuyEndAt},
		} {
			if x.was != x.is && what == "" {
				what, was, is = x.key, x.was, x.is
			}
		}
		if what != "" {
			w.violate(c, "C24", what, "the %s of %s is %v but was last announced as %v", what, p.PlayerID, is, was)
		}
	}
}

// seenState is what an update notification shows of a competition.
type seenState struct {
	status       pc.CompetitionStateStatus
	level        int
	start, end   int64
	tables, rank int
	serial       int64
	ps           []seenPlayer
}

type seenPlayer struct {
	id, table                string
	status                   pc.CompetitionPlayerStatus
	seat, rebuys, addons     int
	chips, redeemed, busting int64
	rank                     int
}

func (c *Comp) visible(comp *pc.Competition) *seenState {
	st := comp.State
	v := &seenState{status: st.Status, level: -1, start: st.StartAt, end: st.EndAt, tables: len(st.Tables), rank: len(st.Rankings), serial: comp.UpdateSerial}
	if st.BlindState != nil {
		v.level = st.BlindState.CurrentLevelIndex
	}
	for _, p := range st.Players {
		v.ps = append(v.ps, seenPlayer{p.PlayerID, p.CurrentTableID, p.Status, p.CurrentSeat, p.ReBuyTimes, p.AddonTimes, p.Chips, p.TotalRedeemChips, p.ReBuyEndAt, p.Rank})
	}
	return v
}

// checkSeen: whoever follows the update notifications is up to date a moment
// after things have settled.
func (c *Comp) checkSeen() {
	if c.seen == nil {
		return
	}
	now, is := c.seen, c.visible(c.st)
	what := ""
	diff := func(k string, a, b interface{}) {
		if what == "" && a != b {
			what = fmt.Sprintf("%s: shown %v, is %v", k, a, b)
		}
	}
	diff("status", now.status, is.status)
	diff("level", now.level, is.level)
	diff("start", now.start, is.start)
	diff("end", now.end, is.end)
	diff("tables", now.tables, is.tables)
	diff("rankings", now.rank, is.rank)
	diff("players", len(now.ps), len(is.ps))
	for i := range is.ps {
		if what == "" {
			diff("player "+is.ps[i].id, now.ps[i], is.ps[i])
		}
	}
	if what == "" || what != c.staleKey {
		c.staleKey, c.staleAt = what, time.Now()
		return
	}
	c.w.checks["C17"]++
	if time.Since(c.staleAt) > 5*time.Second {
		k := strings.SplitN(what, ":", 2)[0]
		if strings.HasPrefix(k, "player ") {
			k = "player"
		}
		c.w.violate(c, "C17", "unseen-"+k, "%s has not been announced for %s", what, time.Since(c.staleAt).Round(time.Second))
	}
}

// reportedErr: somebody was told of this failure.
func (c *Comp) reportedErr(err error) {
	for _, e := range c.svcErrs {
		if errors.Is(err, e) {
			if !e.done {
				c.w.checks["C25"]++
			}
			e.done = true
		}
	}
}

// checkFailures: no failure of the table service goes unnoticed.
func (c *Comp) checkFailures() {
	w := c.w
	for _, e := range c.svcErrs {
		if e.done || e.method == "ReleaseTable" {
			continue // giving a table back is best effort
		}
		w.checks["C25"]++
		w.violate(c, "C25", "silent-"+e.method, "the table service refused request %d of kind %s at %dms and neither the caller nor the error listener was told", e.n, e.method, e.at.Sub(w.t0).Milliseconds())
		e.done = true
	}
}

// checkPlaces: with one table (CT, cash) everybody with chips has a place at it.
func (c *Comp) checkPlaces() {
	w := c.w
	if c.ended() || c.tblErr > 0 {
		return
	}
	open := c.openTables()
	if len(open) != 1 {
		return
	}
	t := open[0]
	for _, bp := range c.bps() {
		id := bp.id
		cp := c.player(id)
		off := cp == nil || cp.Status != pc.CompetitionPlayerStatus_Playing || bp.chips() <= 0 || bp.fuzzy || bp.unsure || c.twice[id]
		if off {
			c.since("place-"+id, false)
			continue
		}
		w.checks["C03"]++
		i := t.idx(id)
		if d := c.since("place-"+id, i < 0); d >= 10*time.Second {
			key := "no-place"
			if c.quitRace[id] {
				key = "no-place-quit-overlap"
			}
			w.violate(c, "C03", key, "%s holds %d chips but has had no place at the table for %s", id, bp.chips(), d)
		}
		if i >= 0 {
			s := t.tb.State.PlayerStates[i].Seat
			if d := c.since("seat-"+id, cp.CurrentTableID != t.tb.ID || cp.CurrentSeat != s); d >= 10*time.Second {
				w.violate(c, "C03", "wrong-place", "%s sits at seat %d, the competition says table %q seat %d", id, s, cp.CurrentTableID, cp.CurrentSeat)
			}
		}
	}
}
