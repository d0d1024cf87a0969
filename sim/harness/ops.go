package harness

import (
	"fmt"
	"sort"
	"time"

	"verif/simrt"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// outcome of one call as the client sees it
type outcome struct {
	err   error
	exact bool // the state the decision was based on is known
	pure  bool // nothing else ran during the call
}

// call submits one request. want, when the decision can be predicted, returns
// whether it must be accepted and why; effect recognises an update that already
// contains the accepted request.
// still reports whether the request would be accepted by the rules now.
func still(want func() (bool, string)) bool { ok, _ := want(); return ok }

func (c *Comp) call(prop, kind, player string, want func() (bool, string), effect func(*pc.Competition) bool, book func(lo time.Time), do func() error) outcome {
	w := c.w
	w.nCalls++
	lo := time.Now()
	o := outcome{exact: c.idle() && !c.anyFuzzyOf(player)}
	if bp := c.players[player]; bp != nil && bp.lapped() {
		o.exact = false
	}
	accept, why := false, ""
	if o.exact && want != nil {
		accept, why = want()
	}
	d0 := ""
	if o.exact {
		d0 = digest(c.st)
	}
	upd, sev, pev := c.updates, c.stateEvents, c.playerEvents
	picks, pre := w.s.Picks, w.s.NPreempts()
	cr := &callRec{gid: uint64(simrt.GID()), kind: kind, player: player, lo: lo}
	if kind == "quit" && c.flying("buyin", player) || kind == "buyin" && c.flying("quit", player) {
		c.quitRace[player] = true
	}
	c.inFlight[cr] = true
	if kind == "buyin" || kind == "addon" {
		// a purchase made while a hand of the player is still being settled
		for _, rec := range c.recs {
			if chips, at := rec.rank[player]; at {
				if bp := c.players[player]; bp != nil && chips == 0 {
					bp.bustLap = true
				} else if bp != nil {
					bp.fuzzy, bp.fuzzN = true, c.nRec
				}
			}
		}
	}
	var wt *watch
	if effect != nil {
		wt = c.watch(effect)
	}
	wasEnded := c.ended()
	stopped := c.st != nil && c.st.State.Status == pc.CompetitionStateStatus_StoppedBuyIn
	c.active++
	c.dirty = true
	err := do()
	if err != nil {
		c.reportedErr(err)
	}
	c.active--
	c.dirty = true
	delete(c.inFlight, cr)
	if kind == "buyin" || kind == "addon" {
		c.lastBuy = time.Now()
	}
	o.err = err
	o.pure = w.s.Picks == picks
	if w.s.NPreempts() != pre {
		o.exact = false // another request may have been decided first
	}
	if wt != nil {
		c.unwatch(wt)
	}
	if w.s.Dead() {
		return o
	}
	w.log(c, "%s %s -> %v", kind, player, err)
	w.checks["C14"]++
	// the competition ended while the request was under way
	overtaken := c.ended() && !wasEnded
	if err != nil && (overtaken || kind == "addon" && (err == pokertable.ErrTablePlayerNotFound || err == pokertable.ErrManagerTableNotFound)) {
		c.overtaken = true
		if bp := c.players[player]; bp != nil {
			bp.fuzzy, bp.fuzzN, bp.unsure = true, 1<<30, true
		}
	}
	if err != nil && kind == "buyin" && !c.stop.IsZero() && !lo.After(c.stop) {
		// refused after all: one more player who was waiting when it closed
		if bp := c.players[player]; bp != nil && bp.chips() == 0 && bp.elim == nil && !c.flying("buyin", player) {
			bp.elim = &elim{span: span{c.stop, c.stop}, batch: c.stopBatch, stop: true, post: true}
			c.stopWaiters = append(c.stopWaiters, bp.id)
		}
	}
	if prop != "" && o.exact && want != nil {
		w.checks[prop]++
		if accept && err != nil && !overtaken && err != errNotSeated {
			key := kind + "-refused"
			if (err == pokertable.ErrTablePlayerNotFound || err == pokertable.ErrManagerTableNotFound) && kind == "addon" && !still(want) {
				// the player busted and was taken off while the table was asked
				key = kind + "-lost-seat"
			}
			w.violate(c, prop, key, "%s of %s was refused (%v) although %s", kind, player, err, why)
		}
		if !accept && err == nil {
			w.violate(c, prop, kind+"-accepted", "%s of %s was accepted although %s", kind, player, why)
			if prop == "C03" && stopped {
				w.violate(c, "C07", kind+"-accepted", "%s of %s was accepted although registration had closed (%s)", kind, player, why)
			}
		}
	}
	if err != nil {
		if o.exact && o.pure {
			w.checks["C17"]++
			if d1 := digest(c.st); d1 != d0 {
				p := prop
				if p == "" {
					p = "C17"
				}
				w.violate(c, p, kind+"-refused-changed", "%s of %s was refused (%v) but changed the competition: %s", kind, player, err, diffAt(d0, d1))
			}
			if c.updates != upd || c.stateEvents != sev || c.playerEvents != pev {
				w.violate(c, "C17", "refused-announced", "%s of %s was refused (%v) but announced something", kind, player, err)
			}
		}
	} else {
		if wt != nil && !wt.ok && !wasEnded && !(kind == "quit" && (!c.stop.IsZero() || c.ended())) {
			w.checks["C17"]++
			w.violate(c, "C17", kind+"-unannounced", "%s of %s was accepted but no update containing it was sent before the call returned (%d updates)", kind, player, wt.n)
		} else if wt != nil {
			w.checks["C17"]++
		}
		c.happened(kind)
		if book != nil {
			book(lo)
		}
	}
	return o
}

func (c *Comp) anyFuzzyOf(player string) bool {
	bp := c.players[player]
	return bp != nil && bp.fuzzy
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := max(0, i-60)
	cut := func(s string) string {
		if j >= len(s) {
			return ""
		}
		return s[j:min(len(s), i+60)]
	}
	return fmt.Sprintf("...%s... became ...%s...", cut(a), cut(b))
}

func (c *Comp) buyIn(player string, chips int64, unit int) outcome {
	kind := "buyin"
	c.buyinN[player]++
	if bp := c.players[player]; bp != nil && len(bp.leaveReq) > 0 {
		bp.leaveReq, bp.leaveFuzzy = nil, true
	}
	want := func() (bool, string) {
		bp := c.players[player]
		s := c.st.State.Status
		if chips <= 0 {
			return false, fmt.Sprintf("it is for %d chips", chips)
		}
		if r := statusRank(s); r != 1 && r != 2 {
			return false, fmt.Sprintf("the competition is %s", s)
		}
		if c.isCash() {
			return true, "the cash game takes buy-ins"
		}
		if bp == nil {
			if c.isCT() {
				n := 0
				for _, p := range c.bps() {
					if p.elim == nil {
						n++
					}
				}
				if n >= c.meta.TableMaxSeatCount {
					return false, fmt.Sprintf("%d players play or wait to re-buy at %d seats", n, c.meta.TableMaxSeatCount)
				}
				return true, fmt.Sprintf("the player is new and %d of %d places are taken", n, c.meta.TableMaxSeatCount)
			}
			return true, "the player is new"
		}
		if bp.elim != nil {
			return false, "the player was knocked out"
		}
		if bp.chips() > 0 {
			return false, fmt.Sprintf("the player holds %d chips", bp.chips())
		}
		if bp.rebuys >= c.meta.ReBuySetting.MaxTime {
			return false, fmt.Sprintf("the player re-bought %d times already", bp.rebuys)
		}
		return true, "the player waits to re-buy"
	}
	base := int64(0)
	if bp := c.players[player]; bp != nil {
		base = bp.redeemed
	}
	multi := c.flying("buyin", player) || c.flying("addon", player) || c.flying("refund", player)
	bp0 := c.players[player]
	effect := func(st *pc.Competition) bool {
		for _, p := range st.State.Players {
			if p.PlayerID == player {
				// base no longer counts when the player was paid out meanwhile
				return multi || p.TotalRedeemChips >= base+chips || c.players[player] != bp0 && p.TotalRedeemChips >= chips
			}
		}
		return false
	}
	return c.call("C03", kind, player, want, effect, func(lo time.Time) {
		c.bookBuyIn(player, chips, unit, lo)
		c.rankDirty = false
	}, func() error {
		jp := pc.JoinPlayer{PlayerID: player, RedeemChips: chips, Unit: unit}
		if c.own != nil {
			return c.eng.PlayerBuyIn(jp)
		}
		return c.w.mgr.PlayerBuyIn(c.spec.ID, jp)
	})
}

func (c *Comp) addon(player, table string, chips int64, unit int) outcome {
	want := func() (bool, string) {
		bp := c.players[player]
		if chips <= 0 {
			return false, fmt.Sprintf("it is for %d chips", chips)
		}
		if bp == nil {
			return false, "the player is not registered"
		}
		if !c.running() {
			return false, fmt.Sprintf("the competition is %s", c.st.State.Status)
		}
		li := c.st.State.BlindState.CurrentLevelIndex
		l := c.meta.Blind.Levels[li]
		if !l.AllowAddon {
			return false, fmt.Sprintf("level index %d does not allow add-ons", li)
		}
		if c.meta.AddonSetting.IsBreakOnly && l.Level != -1 {
			return false, "add-ons are only allowed during a break"
		}
		if bp.addons >= c.meta.AddonSetting.MaxTime {
			return false, fmt.Sprintf("the player has %d add-ons already", bp.addons)
		}
		if bp.chips() <= 0 {
			return false, "the player has no chips"
		}
		ts := c.seatedAt(player)
		if len(ts) == 0 || ts[0].tb.ID != table {
			return false, "the player does not sit at that table"
		}
		return true, "every condition holds"
	}
	bp := c.players[player]
	base := 0
	if bp != nil {
		base = bp.addons
	}
	nr := len(c.redeems[player])
	o := c.call("C04", "addon", player, want, func(st *pc.Competition) bool {
		for _, p := range st.State.Players {
			if p.PlayerID == player {
				return p.AddonTimes >= base+1
			}
		}
		return false
	}, func(lo time.Time) {
		if bp := c.players[player]; bp != nil {
			bp.addons++
			bp.redeemed += chips
		}
		if !c.isCash() {
			c.addonN += unit
		}
		c.rankDirty = false
	}, func() error {
		jp := pc.JoinPlayer{PlayerID: player, RedeemChips: chips, Unit: unit}
		if c.own != nil {
			return c.eng.PlayerAddon(table, jp)
		}
		return c.w.mgr.PlayerAddon(c.spec.ID, table, jp)
	})
	if o.err == nil && !c.w.s.Dead() {
		rs := c.redeems[player]
		if len(rs) <= nr || rs[len(rs)-1] != chips {
			c.w.violate(c, "C04", "table-untold", "the add-on of %s was accepted but the table was not told about %d chips", player, chips)
		}
	}
	return o
}

func (c *Comp) refund(player string) outcome {
	want := func() (bool, string) {
		if c.players[player] == nil {
			return false, "the player is not registered"
		}
		if !c.act.IsZero() {
			return false, "the blinds have started"
		}
		return true, "the player is registered and the blinds have not started"
	}
	bp := c.players[player]
	return c.call("C05", "refund", player, want, func(st *pc.Competition) bool {
		for _, p := range st.State.Players {
			if p.PlayerID == player && bp != nil && p.JoinAt == bp.joinAt {
				return false
			}
		}
		return true
	}, func(lo time.Time) {
		if bp := c.players[player]; bp != nil {
			c.units -= bp.units
			delete(c.players, player)
			c.refunded[player] = time.Now()
			c.refundLap = c.refundLap || !c.started.IsZero() && !c.started.Before(lo)
			c.refundBusy = true // a start under way may still count the player
			c.rankDirty = true
		}
	}, func() error {
		if c.own != nil {
			return c.eng.PlayerRefund(player)
		}
		return c.w.mgr.PlayerRefund(c.spec.ID, player)
	})
}

func (c *Comp) cashOut(player string) outcome {
	table := ""
	if ts := c.seatedAt(player); len(ts) > 0 {
		table = ts[0].tb.ID
	} else if len(c.order) > 0 {
		table = c.order[0].tb.ID
	}
	n0 := c.buyinN[player]
	if c.flying("buyin", player) {
		n0 = -1
	}
	want := func() (bool, string) {
		switch {
		case !c.isCash():
			return false, "it is not a cash game"
		case c.ended():
			return false, "the competition is over"
		case c.players[player] == nil:
			return false, "the player is not in the game"
		}
		return true, "the player is in the game"
	}
	return c.call("C16", "cashout", player, want, func(st *pc.Competition) bool {
		p := playerOf(st, player)
		return p == nil || p.Status == pc.CompetitionPlayerStatus_CashLeaving
	}, func(lo time.Time) {
		c.refundLap = c.refundLap || !c.started.IsZero() && !c.started.Before(lo)
		c.refundBusy = true
		if bp := c.players[player]; bp != nil {
			if c.buyinN[player] != n0 || c.flying("buyin", player) {
				bp.leaveFuzzy = true // which of the two was decided last is open
			} else {
				bp.leaveReq = append(bp.leaveReq, time.Now())
			}
			c.rankDirty = true
		}
	}, func() error {
		if c.own != nil {
			return c.eng.PlayerCashOut(table, player)
		}
		return c.w.mgr.PlayerCashOut(c.spec.ID, table, player)
	})
}

// quitOp has a player quit if that is one of the supported moments: a CT
// player without chips while registration is open.
func (c *Comp) quitOp(id string) {
	if c.ended() || c.released {
		return
	}
	if id == "" {
		id = "nobody"
	}
	bp := c.players[id]
	if !c.isCT() || !c.stop.IsZero() || bp == nil {
		if c.idle() {
			c.quitGame(id) // refused
		}
		return
	}
	if bp.chips() > 0 || bp.elim != nil || c.flying("", id) {
		return
	}
	// the player knows the hand is over once the competition does
	for _, t := range c.seatedAt(id) {
		if t.unreported() {
			return
		}
	}
	for _, rec := range c.recs {
		if _, at := rec.rank[id]; at {
			return
		}
	}
	c.quitGame(id)
}

func (c *Comp) quitGame(player string) outcome {
	ts := c.seatedAt(player)
	table := ""
	if len(ts) > 0 {
		table = ts[0].tb.ID
	} else if len(c.order) > 0 {
		table = c.order[0].tb.ID
	}
	want := func() (bool, string) {
		bp := c.players[player]
		switch {
		case !c.isCT():
			return false, "it is not a CT"
		case bp == nil:
			return false, "the player is not in the competition"
		case !c.stop.IsZero():
			return false, "registration is closed"
		case bp.elim != nil:
			return false, "the player was knocked out"
		}
		return true, "the player has no chips and registration is open"
	}
	if bp := c.players[player]; bp != nil && len(ts) == 0 && c.isCT() {
		want = nil // the table service decides about players it does not know
	}
	return c.call("C07", "quit", player, want, func(st *pc.Competition) bool {
		p := playerOf(st, player)
		return p == nil || !p.IsReBuying && p.CurrentSeat == -1 || c.quitRace[player]
	}, func(lo time.Time) {
		if bp := c.players[player]; bp != nil && len(ts) > 0 {
			bp.quit = true
			c.rankDirty = true
		}
	}, func() error {
		if c.own != nil {
			return c.eng.PlayerQuit(table, player)
		}
		return c.w.mgr.PlayerQuit(c.spec.ID, table, player)
	})
}

func (c *Comp) start() outcome {
	var at int64
	want := func() (bool, string) {
		if c.startN > 0 {
			return false, "the competition was started before"
		}
		if c.ended() {
			return false, "the competition has ended"
		}
		return true, "the competition has not started"
	}
	return c.call("C08", "start", "", want, func(st *pc.Competition) bool { return st.State.StartAt > 0 }, func(lo time.Time) {}, func() error {
		var err error
		if c.own != nil {
			at, err = c.eng.StartCompetition()
		} else {
			at, err = c.w.mgr.StartCompetition(c.spec.ID)
		}
		_ = at
		return err
	})
}

func (c *Comp) close(s pc.CompetitionStateStatus) outcome {
	i := len(c.closeCalls)
	alone, pre := c.idle(), c.w.s.NPreempts()
	c.closeCalls = append(c.closeCalls, closeCall{lo: time.Now(), status: s})
	if c.own == nil {
		c.releasing = true
	}
	o := c.call("", "close", string(s), nil, nil, func(lo time.Time) {
		if !c.ended() && alone && c.w.s.NPreempts() == pre {
			c.w.violate(c, "C18", "close-no-end", "CloseCompetition returned but the competition is %s", c.st.State.Status)
		}
	}, func() error {
		if c.own != nil {
			return c.eng.CloseCompetition(s)
		}
		return c.w.mgr.CloseCompetition(c.spec.ID, s)
	})
	c.closeCalls[i].done = true
	c.closeCalls[i].hi = time.Now()
	if c.own == nil {
		c.releasing = false
		if o.err == nil {
			c.released = true
		}
	}
	return o
}

func (c *Comp) setInitial(level int) outcome {
	seq := len(c.initUpdates)
	lo := time.Now()
	o := c.call("", "initlevel", fmt.Sprint(level), nil, nil, nil, func() error {
		if c.own != nil {
			return c.eng.UpdateCompetitionBlindInitialLevel(level)
		}
		return c.w.mgr.UpdateCompetitionBlindInitialLevel(c.spec.ID, level)
	})
	if o.err == nil {
		c.initUpdates = append(c.initUpdates, initUpd{lo: lo, hi: time.Now(), level: level, seq: seq})
		if !c.act.IsZero() && o.exact && c.act.Before(lo) {
			c.w.violate(c, "C06", "initial-after-start", "the initial level was updated after the clock started")
		}
	} else if o.exact && c.st.State.Status == pc.CompetitionStateStatus_Registering && !c.released {
		c.w.violate(c, "C06", "initial-refused", "updating the initial level of a registering competition failed: %v", o.err)
	}
	return o
}

// reactBust is what a busted player does about it.
func (c *Comp) reactBust(bp *BP, i int) {
	if bp == nil || bp.elim != nil || !c.has("rebuy") {
		return
	}
	r := newRng(c.w.sc.Seed, c.key, simrt.HashStr(bp.id), uint64(bp.busts), 21)
	rp := c.spec.Rebuy
	win := c.meta.ReBuySetting.WaitingTime * 1000
	var ms int
	what := r.pick(rp.Soon, rp.Edge, rp.Late, rp.X)
	switch what {
	case 0:
		ms = r.in(50, max(60, min(win-1500, 6000)))
	case 1:
		ms = win + r.in(-1500, 3500)
	case 2:
		ms = win + r.in(4000, 40000)
	default:
		if c.isCT() && r.p(35) && c.has("quit") {
			c.reactQuit(bp, r, win)
		}
		return
	}
	if ms < 50 {
		ms = 50
	}
	chips := rp.Chips
	if chips <= 0 {
		chips = 1000
	}
	if r.p(20) {
		chips *= 2
	}
	n := 1
	if r.p(15) {
		n = 2 // impatient client submits twice
	}
	gap := r.in(0, 400)
	id := bp.id
	for k := 0; k < n; k++ {
		k := k
		simrt.GoNamed(fmt.Sprintf("rebuy:%s:%s:%d:%d", c.spec.ID, id, bp.busts, k), func() {
			time.Sleep(time.Duration(ms+k*gap) * time.Millisecond)
			simrt.Gate()
			if c.isCash() {
				// a cash player only re-buys while still in the game, once
				b := c.players[id]
				if b == nil || b.chips() > 0 || len(b.leaveReq) > 0 || c.ended() || c.flying("buyin", id) || c.flying("cashout", id) {
					return
				}
			}
			if c.released {
				return
			}
			c.buyIn(id, chips, 1)
		})
	}
}

// reactQuit is a busted CT player giving up, sometimes just before registration
// closes.
func (c *Comp) reactQuit(bp *BP, r *rng, win int) {
	ms := r.in(50, win+3000)
	if f := c.meta.Blind.FinalBuyInLevelIndex; f >= 0 && r.p(50) {
		if e := c.levelEnd(f); e > 0 {
			if d := int(time.Until(time.Unix(e, 0)).Milliseconds()); d > 100 && d < 120000 {
				ms = d - r.in(0, min(d, 3000))
			}
		}
	}
	busts := bp.busts
	simrt.GoNamed(fmt.Sprintf("quit:%s:%s:%d", c.spec.ID, bp.id, bp.busts), func() {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		simrt.Gate()
		if bp.busts == busts {
			c.quitOp(bp.id)
		}
	})
}

// resolve picks the player an operation is about.
func (c *Comp) resolve(op *Op) string {
	if op.Player != "" {
		return op.Player
	}
	var ids []string
	for _, bp := range c.bps() {
		id := bp.id
		ok := false
		switch op.Pick {
		case "seated":
			ok = len(c.seatedAt(id)) > 0
		case "holder":
			ok = bp.chips() > 0
		case "busted":
			ok = bp.chips() == 0 && bp.elim == nil
		case "bustedseated":
			ok = bp.chips() == 0 && bp.elim == nil && bp.busts > 0 && len(c.seatedAt(id)) > 0
		case "knocked":
			ok = bp.elim != nil
		default:
			ok = true
		}
		if ok {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return ""
	}
	sort.Strings(ids)
	return ids[op.N%uint64(len(ids))]
}

// runOp performs one scripted client operation.
func (w *World) runOp(op *Op) {
	if w.s.Dead() || op.Comp >= len(w.comps) {
		return
	}
	c := w.comps[op.Comp]
	if !c.created {
		return
	}
	if op.Kind == "reset" {
		w.resetAll()
		return
	}
	if op.Kind == "probe" {
		w.probe(c, op)
		return
	}
	if c.released {
		w.released(c, op)
		return
	}
	switch op.Kind {
	case "buyin":
		if c.isCash() && !c.cashRoom(op.Player) {
			return
		}
		c.buyIn(op.Player, op.Chips, op.Unit)
	case "topup":
		id := c.resolve(op)
		if id == "" || c.isCash() && (len(c.players[id].leaveReq) > 0 || c.flying("cashout", id) || c.ended()) {
			return
		}
		c.buyIn(id, op.Chips, op.Unit)
	case "addon":
		id := c.resolve(op)
		if id == "" {
			id = op.Player
		}
		if id == "" {
			return
		}
		table := ""
		if ts := c.seatedAt(id); len(ts) > 0 {
			table = ts[0].tb.ID
		} else if len(c.order) > 0 {
			table = c.order[0].tb.ID
		}
		c.addon(id, table, op.Chips, op.Unit)
	case "refund":
		id := c.resolve(op)
		if id == "" {
			id = "nobody"
		}
		if c.isCash() || c.ended() {
			return
		}
		c.refund(id)
	case "cashout":
		id := c.resolve(op)
		if id == "" {
			id = "nobody"
		}
		c.cashOut(id)
	case "quit":
		c.quitOp(c.resolve(op))
	case "start":
		if c.isMTT() {
			c.start()
		}
	case "close":
		c.close(pc.CompetitionStateStatus(op.Str))
	case "initlevel":
		c.setInitial(op.Arg)
	case "release":
		if c.own == nil {
			c.releasing = true
			c.w.mgr.ReleaseCompetition(c.spec.ID)
			c.released = true
			c.releasing = false
			w.log(c, "released")
		}
	}
}

// cashRoom: the client only joins a cash table with a free seat and only if
// not in the middle of leaving.
func (c *Comp) cashRoom(player string) bool {
	if c.ended() {
		return true
	}
	if bp := c.players[player]; bp != nil {
		return len(bp.leaveReq) == 0 && !c.flying("cashout", player)
	}
	n := 0
	for cr := range c.inFlight {
		if cr.kind == "buyin" {
			n++
		}
	}
	seated := 0
	for _, t := range c.openTables() {
		seated += len(t.tb.State.PlayerStates)
	}
	pend := 0
	for _, bp0 := range c.bps() {
		id := bp0.id
		if len(c.seatedAt(id)) == 0 {
			pend++
		}
	}
	return seated+pend+n < c.meta.TableMaxSeatCount
}

// released: requests to a competition the manager no longer has are refused.
func (w *World) released(c *Comp, op *Op) {
	if c.own != nil {
		return
	}
	p := op.Player
	if p == "" {
		p = "somebody"
	}
	w.expectNotFound(c, c.spec.ID, op.Kind, p)
}

func (w *World) probe(c *Comp, op *Op) {
	w.expectNotFound(nil, "no-such-competition", op.Str, "p0")
}

func (w *World) expectNotFound(c *Comp, id, kind, player string) {
	if w.resetAct > 0 {
		return
	}
	w.checks["C18"]++
	w.probes++
	d := map[*Comp]string{}
	busy := false
	for _, x := range w.comps {
		if x.created {
			busy = busy || !x.idle()
			d[x] = digest(x.st)
		}
	}
	picks := w.s.Picks
	var err error
	jp := pc.JoinPlayer{PlayerID: player, RedeemChips: 1000, Unit: 1}
	switch kind {
	case "buyin", "topup":
		err = w.mgr.PlayerBuyIn(id, jp)
	case "addon":
		err = w.mgr.PlayerAddon(id, "T", jp)
	case "refund":
		err = w.mgr.PlayerRefund(id, player)
	case "cashout":
		err = w.mgr.PlayerCashOut(id, "T", player)
	case "quit":
		err = w.mgr.PlayerQuit(id, "T", player)
	case "start":
		_, err = w.mgr.StartCompetition(id)
	case "close":
		err = w.mgr.CloseCompetition(id, pc.CompetitionStateStatus_ForceEnd)
	case "initlevel":
		err = w.mgr.UpdateCompetitionBlindInitialLevel(id, 1)
	case "update":
		err = w.mgr.UpdateTable(id, &pokertable.Table{ID: "T", State: &pokertable.TableState{}})
	case "reserve":
		err = w.mgr.UpdateReserveTablePlayerState(id, "T", &pokertable.TablePlayerState{PlayerID: player})
	case "autoend":
		err = w.mgr.AutoGameOpenEnd(id, "T")
	case "ready":
		err = w.mgr.ReadyFirstTableGame(id, "T", 0, nil)
	default:
		_, err = w.mgr.GetCompetitionEngine(id)
	}
	w.log(c, "%s at %s -> %v", kind, id, err)
	if err != pc.ErrManagerCompetitionNotFound {
		w.violate(c, "C18", "not-found", "%s addressed to %s, which the manager does not have, returned %v", kind, id, err)
	}
	if !busy && picks == w.s.Picks {
		for x, a := range d {
			if digest(x.st) != a {
				w.violate(x, "C18", "foreign-call", "%s addressed to %s changed this competition", kind, id)
			}
		}
	}
}

// resetAll closes everything.
func (w *World) resetAll() {
	w.resetAct++
	w.resets++
	w.log(nil, "Reset")
	before := map[*Comp]bool{}
	for _, c := range w.comps {
		if c.created && c.own == nil && !c.released {
			before[c] = true
			c.releasing = true
		}
	}
	w.mgr.Reset()
	for _, c := range w.comps {
		if !before[c] {
			continue
		}
		w.checks["C18"]++
		c.released = true
		c.releasing = false
		c.dirty = true
		if !c.ended() {
			w.violate(c, "C18", "reset-missed", "after Reset the competition is %s", c.st.State.Status)
		}
		if _, err := w.mgr.GetCompetitionEngine(c.spec.ID); err != pc.ErrManagerCompetitionNotFound {
			w.violate(c, "C18", "reset-reachable", "after Reset the competition is still with the manager (%v)", err)
		}
	}
	w.resetAct--
}

func playerOf(st *pc.Competition, id string) *pc.CompetitionPlayer {
	for _, p := range st.State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}
