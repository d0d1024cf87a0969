package harness

import (
	"fmt"
	"sort"

	"verif/simrt"

	pc "github.com/weedbox/pokercompetition"
)

// knobs steer the generator; every property has its own weights, everything
// else stays random.
type knobs struct {
	mode       []int // weights ct, mtt, cash
	dup        int   // percent of runs with repeated settlement reports
	stale      int   // ... late repeats, arriving when later hands are over
	slow       int   // ... slow table service requests
	slowSet    int   // ... settlement reports that arrive late
	switchPct  int   // percent of runs with switch points at requests
	preempt    int   // percent of runs with statement preemption
	fails      bool  // any request to the table service can fail
	errs       int   // percent of runs with failing UpdateBlind/ReleaseTable
	breaks     int   // percent chance a level is a break
	addons     int   // number of add-on attempts, about
	refunds    int   // number of refund attempts, about
	closes     int   // percent of runs closed by somebody
	junk       int   // number of requests that the rules forbid, about
	direct     int   // percent of runs with the engine used without a manager
	after      int   // number of requests sent after the end, about
	allin      int   // weight of all-in hands
	rebuys     int   // percent of runs with re-buys allowed
	shortWin   int   // percent of runs with re-buy windows of a few seconds
	adv        int   // percent of MTTs with an advancement rule
	disable    int   // percent of runs which never reach the minimum
	initlvl    int   // percent of runs which update the initial level
	multi      bool
	late       int // percent of entrants that come after the start
	dupCalls   int // percent of requests submitted more than once
	live       int // percent of runs with a live table pointer
	sched      int // percent of runs with a scheduled start
	fewHolders int // percent of runs with tiny rosters
	slowLeave  int // percent of runs in which requests made in client calls are slow
	trig       int // percent of runs with requests that meet an event
	cashLimit  int // percent of cash games with a time limit within reach
}

func baseKnobs() knobs {
	return knobs{mode: []int{4, 5, 2}, dup: 10, slow: 30, slowSet: 20, switchPct: 50, breaks: 20, addons: 3, refunds: 1, closes: 10, junk: 4, direct: 15, after: 2, allin: 30, rebuys: 75, shortWin: 50, adv: 30, disable: 5, initlvl: 20, late: 40, dupCalls: 10, live: 30, sched: 25, fewHolders: 15, errs: 5, cashLimit: 15, slowLeave: 10, trig: 25}
}

func knobsFor(profile string) knobs {
	k := baseKnobs()
	switch profile {
	case "C01":
		k.addons, k.junk = 6, 6
	case "C02":
		k.dup, k.stale, k.slowSet, k.preempt, k.live = 80, 50, 50, 40, 50
	case "C03":
		k.mode = []int{5, 4, 1}
		k.junk, k.dupCalls, k.allin, k.preempt = 10, 40, 45, 40
		k.refunds, k.trig = 2, 40
	case "C04":
		k.addons, k.dupCalls, k.preempt, k.after, k.breaks, k.trig = 14, 40, 30, 4, 30, 60
	case "C05":
		k.mode = []int{5, 5, 0}
		k.refunds, k.dupCalls, k.preempt, k.late, k.trig = 7, 30, 30, 20, 40
	case "C06":
		k.initlvl, k.errs = 40, 10
	case "C07":
		k.mode = []int{5, 5, 1}
		k.allin, k.junk, k.fewHolders, k.slowLeave = 45, 8, 30, 45
	case "C08":
		k.closes, k.after, k.dupCalls, k.slowLeave = 50, 8, 30, 12
	case "C09":
		k.mode = []int{5, 6, 0}
		k.allin, k.slowLeave = 45, 15
	case "C10":
		k.allin = 35
		k.slowSet = 30
	case "C11":
		k.dup, k.closes = 30, 5
	case "C12":
		k.mode = []int{0, 1, 0}
		k.late, k.allin = 50, 40
	case "C13":
		k.mode = []int{0, 1, 0}
		k.adv, k.allin, k.closes = 60, 45, 0
	case "C14":
		k.closes, k.slow = 3, 40
	case "C15":
		k.breaks, k.closes = 45, 3
	case "C16":
		k.mode = []int{0, 0, 1}
		k.dupCalls, k.trig = 30, 40
	case "C17":
		k.junk, k.addons, k.refunds = 8, 5, 2
	case "C18":
		k.multi, k.direct = true, 0
	case "C19":
		k.mode = []int{5, 0, 4}
		k.allin, k.rebuys, k.closes = 60, 95, 3
	case "C23":
		k.allin, k.dupCalls, k.preempt = 35, 25, 40
	case "C24":
		k.allin, k.addons, k.preempt = 35, 5, 40
	case "C25":
		k.fails = true
	case "C20":
		k.mode = []int{7, 3, 2}
		k.disable, k.closes = 35, 3
		k.cashLimit = 70
	}
	return k
}

// Generate builds the scenario of one seed.
func Generate(profile string, seed uint64) *Scenario {
	if profile == "C21" || profile == "C22" {
		return generateB(profile, seed)
	}
	r := newRng(seed, simrt.HashStr(profile), 1)
	k := knobsFor(profile)
	sc := &Scenario{Seed: seed, Profile: profile, World: "A", PhaseNs: int64(r.n(1000)) * 1000003, Grace: r.in(4, 40)}
	if r.p(20) {
		sc.PhaseNs = 0
	}
	if k.multi {
		n := r.in(2, 3)
		for i := 0; i < n; i++ {
			genComp(sc, i, k, r)
		}
		for i := 0; i < r.in(2, 6); i++ {
			kinds := []string{"buyin", "addon", "refund", "cashout", "quit", "start", "close", "initlevel", "update", "reserve", "autoend", "ready", "get"}
			sc.Ops = append(sc.Ops, Op{ID: fmt.Sprintf("x%d", i), At: r.n(sc.Horizon * 500), Comp: 0, Kind: "probe", Str: kinds[r.n(len(kinds))]})
		}
		if r.p(30) {
			sc.Ops = append(sc.Ops, Op{ID: "reset", At: r.in(2000, sc.Horizon*600), Kind: "reset"})
		}
	} else {
		genComp(sc, 0, k, r)
	}
	// scheduling
	switch r.n(4) {
	case 0:
		sc.Sched.Policy = 1
	case 1:
		sc.Sched.Policy = 2
	}
	if r.p(k.switchPct) {
		sc.Sched.SwitchPct = r.ii(10, 30, 60)
	}
	if k.preempt > 0 && r.p(k.preempt) {
		sc.Sched.PreemptRate = uint64(r.ii(200, 1000, 5000))
		sc.Sched.MaxPreempts = r.in(1, 40)
		if r.p(30) {
			sc.Sched.StallRate = uint64(r.ii(200, 1000))
		}
	}
	// requests that meet an event
	if rt := newRng(seed, simrt.HashStr(profile), 9); rt.p(k.trig) {
		if rt.p(50) {
			sc.Sched.HotRate = uint64(rt.ii(3000, 15000, 60000, 250000))
			sc.Sched.MaxHot = rt.in(2, 40)
			if sc.Sched.HotRate > 100000 {
				sc.Sched.MaxHot = rt.in(20, 200)
			}
			if sc.Sched.Policy == 2 {
				sc.Sched.Policy = 0
			}
		}
		pct := rt.ii(10, 30, 60)
		for i := range sc.Ops {
			o := &sc.Ops[i]
			if o.Kind == "reset" || o.Kind == "probe" || o.Kind == "release" || o.Kind == "start" || !rt.p(pct) {
				continue
			}
			if o.Kind == "buyin" && o.At < 5000 {
				continue
			}
			if rt.p(25) || o.Kind == "addon" && rt.p(50) {
				o.Dup, o.DupGap = 1, 0
			}
			if cash := sc.Comps[o.Comp].Meta.Mode == pc.CompetitionMode_Cash; (o.Kind == "cashout" && cash || o.Kind == "quit") && rt.p(30) {
				o.When, o.Pick = "window", "busted"
				if cash {
					o.Pick = "bustedseated"
				}
			} else if !rt.p(30) {
				o.When = []string{"settled", "settled", "settled", "level", "UpdateTablePlayers", "PlayersLeave", "CreateTable", "PlayerReserve", "CloseTable", "SetUpTableGame"}[rt.n(10)]
			}
		}
	}
	sort.SliceStable(sc.Ops, func(i, j int) bool { return sc.Ops[i].At < sc.Ops[j].At })
	return sc
}

func genComp(sc *Scenario, ci int, k knobs, r *rng) {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[r.pick(k.mode...)]
	id := fmt.Sprintf("C%d", ci)
	if k.multi {
		id = []string{"alpha", "beta", "gamma"}[ci]
	}
	sp := CompSpec{ID: id, StartIn: -1}
	if k.multi && ci > 0 && r.p(40) {
		sp.CreateAt = r.n(20000)
	}
	if r.p(k.direct) {
		sp.Direct = true
	}
	sp.LivePtr = r.p(k.live)
	sp.PauseEff = r.p(50)
	m := &sp.Meta
	m.Mode = mode
	m.Rule = pc.CompetitionRule_Default
	m.ActionTime = 10
	m.MinChipUnit = r.i64(1, 1, 5, 10)
	m.TableMinPlayerCount = 2
	m.TableMaxSeatCount = r.ii(2, 3, 5, 6, 9, 9)
	m.MinPlayerCount = r.in(2, min(4, m.TableMaxSeatCount))
	m.MaxPlayerCount = 100
	roster := 0
	switch mode {
	case pc.CompetitionMode_CT:
		m.MaxDuration = r.ii(60, 120, 180, 300, 600)
		if r.p(30) {
			m.MaxDuration += r.n(40)
		}
		roster = m.TableMaxSeatCount + r.n(3)
		sp.Tables = 1
	case pc.CompetitionMode_Cash:
		m.MaxDuration = 1000000
		if r.p(k.cashLimit) {
			m.MaxDuration = r.in(40, 300)
		}
		m.TableMaxSeatCount = r.ii(3, 5, 6, 9)
		m.MinPlayerCount = r.in(2, 3)
		roster = m.TableMaxSeatCount + r.n(4)
		sp.Tables = 1
	case pc.CompetitionMode_MTT:
		m.TableMaxSeatCount = 9
		m.MaxDuration = 1000000
		m.RegulatorMinInitialPlayerCount = r.ii(2, 2, 3, 4, 6)
		m.MinPlayerCount = r.ii(2, 3, 4, 6, 8)
		roster = r.ii(4, 6, 9, 12, 14, 20, 26)
		if r.p(k.fewHolders) {
			roster = r.in(2, 5)
		}
	}
	// blinds
	b := &m.Blind
	b.ID = "b"
	nl := r.in(2, 7)
	lv := 0
	base := r.ii(15, 20, 30, 45, 60)
	for i := 0; i < nl; i++ {
		l := pc.BlindLevel{Duration: base}
		if r.p(40) {
			l.Duration = r.in(5, 60)
		}
		if i > 0 && r.p(k.breaks) && i+1 < nl {
			l.Level = -1
			l.Duration = r.in(6, 40)
		} else {
			lv++
			l.Level = lv
			l.SB = int64(lv) * 10
			l.BB = int64(lv) * 20
			if r.p(60) {
				l.Ante = int64(lv) * r.i64(1, 5, 20)
			}
		}
		l.AllowAddon = r.p(60)
		b.Levels = append(b.Levels, l)
	}
	if r.p(30) {
		b.Levels[nl-1].Duration = -1
	}
	b.InitialLevel = 1
	b.FinalBuyInLevelIndex = r.n(nl)
	if r.p(15) {
		b.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
	}
	if r.p(25) && lv > 1 {
		// a later start, still inside the registration levels
		for i := range b.Levels {
			if b.Levels[i].Level > 1 && (i <= b.FinalBuyInLevelIndex) && r.p(50) {
				b.InitialLevel = b.Levels[i].Level
				break
			}
		}
	}
	if r.p(20) {
		m.Rule = pc.CompetitionRule_ShortDeck
		b.DealerBlindTime = r.in(1, 3)
	}
	if mode == pc.CompetitionMode_Cash {
		b.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
	}
	// purchases
	if r.p(k.rebuys) {
		m.ReBuySetting.MaxTime = r.in(1, 4)
	}
	if mode == pc.CompetitionMode_Cash {
		m.ReBuySetting.MaxTime = 1000
	}
	m.ReBuySetting.WaitingTime = r.in(5, 30)
	if r.p(k.shortWin) {
		m.ReBuySetting.WaitingTime = r.in(2, 8)
	}
	m.AddonSetting.MaxTime = r.n(4)
	m.AddonSetting.IsBreakOnly = r.p(30)
	m.AddonSetting.RedeemChips = []int64{}
	chips := r.i64(500, 1000, 2000, 5000)
	sp.Rebuy = RebuyPlan{Chips: chips, Soon: 4, Edge: 3, Late: 1, X: 2}
	if r.p(25) {
		sp.Rebuy = RebuyPlan{Chips: chips, Soon: 1, Edge: 1, Late: 0, X: 8}
	}
	// hands
	sp.Hands = HandPlan{MinMs: r.ii(500, 2000, 5000), Walk: 15, Normal: 55, AllIn: k.allin, Unit: m.MinChipUnit, SitOut: r.ii(0, 30, 60), GameContinueMs: r.ii(0, 500, 1000, 3000), AllInPlayers: r.in(1, 3), Mid: r.p(30), Fold: true}
	sp.Hands.MaxMs = sp.Hands.MinMs + r.ii(0, 3000, 10000, 25000)
	if r.p(20) {
		sp.Hands.AllIn = 90
	}
	sp.JoinSlow = r.ii(0, 0, 5, 30)
	// advancement
	if mode == pc.CompetitionMode_MTT && r.p(k.adv) {
		if r.p(50) {
			m.AdvanceSetting.Rule = pc.CompetitionAdvanceRule_BlindLevel
			m.AdvanceSetting.BlindLevel = r.in(2, max(2, lv))
		} else {
			m.AdvanceSetting.Rule = pc.CompetitionAdvanceRule_PlayerCount
			m.AdvanceSetting.PlayerCount = 1
			sp.AdvanceN = r.in(2, max(3, roster/2))
		}
	}
	if r.p(k.sched) {
		sp.StartIn = r.in(2, 60)
	}
	sp.DisableIn = r.in(20, 400)
	starve := r.p(k.disable)
	if starve {
		sp.DisableIn = r.in(10, 90)
		roster = r.n(m.MinPlayerCount)
		if r.p(40) {
			roster = m.MinPlayerCount
		}
	}
	sp.Players = roster
	sc.Comps = append(sc.Comps, sp)

	// the length of the run
	total := 0
	for _, l := range b.Levels {
		if l.Duration > 0 {
			total += l.Duration
		}
	}
	len_ := 0
	switch mode {
	case pc.CompetitionMode_CT:
		len_ = max(sp.StartIn, 0) + m.MaxDuration + 150
	case pc.CompetitionMode_MTT:
		len_ = max(sp.StartIn, 0) + min(total+300, 900)
	default:
		len_ = min(total+60, r.ii(200, 400, 700))
	}
	off := sp.CreateAt / 1000
	if len_+off > sc.Horizon {
		sc.Horizon = len_ + off
	}

	// clients
	add := func(o Op) {
		o.ID = fmt.Sprintf("%d.%d", ci, len(sc.Ops))
		o.Comp = ci
		o.At += sp.CreateAt
		if o.Dup == 0 && o.Kind != "close" && o.Kind != "start" && r.p(k.dupCalls) {
			o.Dup = r.in(1, 2)
			o.DupGap = r.ii(0, 0, 1, 50, 700)
		}
		sc.Ops = append(sc.Ops, o)
	}
	opening := r.ii(500, 3000, 15000, 40000)
	span := len_ * 1000
	name := func(i int) string { return fmt.Sprintf("p%d", i) }
	for i := 0; i < roster; i++ {
		at := r.n(opening)
		if i >= m.MinPlayerCount && r.p(k.late) {
			at = r.n(min(span, (total+60)*1000))
		}
		if r.p(30) {
			at = at / 1000 * 1000 // same second, equal entry times
		}
		ch := chips
		if r.p(20) {
			ch = chips * 2
		}
		if r.p(10) {
			ch += m.MinChipUnit * int64(r.n(20))
		}
		add(Op{At: at, Kind: "buyin", Player: name(i), Chips: ch, Unit: 1 + r.n(2)})
		if mode == pc.CompetitionMode_Cash && r.p(50) {
			// comes back later
			add(Op{At: r.in(at, span), Kind: "buyin", Player: name(i), Chips: ch, Unit: 1})
		}
	}
	if mode == pc.CompetitionMode_MTT && (sp.StartIn < 0 || r.p(20)) && !(starve && r.p(60)) {
		at := r.in(opening/2, opening*3/2)
		add(Op{At: at, Kind: "start"})
		for r.p(30) {
			add(Op{At: at + r.ii(0, 0, 1, 500, 30000), Kind: "start"})
		}
	}
	some := func(n int) int {
		if n == 0 {
			return 0
		}
		return r.n(2*n + 1)
	}
	during := func() int { return r.n(span) }
	for i := some(k.junk); i > 0; i-- {
		switch r.n(8) {
		case 0:
			add(Op{At: during(), Kind: "buyin", Player: name(r.n(roster + 3)), Chips: -r.i64(0, 0, 100), Unit: 1})
		case 1:
			add(Op{At: during(), Kind: "topup", Pick: "knocked", N: r.u(), Chips: chips, Unit: 1})
		case 2:
			add(Op{At: during(), Kind: "topup", Pick: "holder", N: r.u(), Chips: chips, Unit: 1})
		case 3, 4:
			add(Op{At: during(), Kind: "topup", Pick: "busted", N: r.u(), Chips: chips, Unit: 1})
		case 5:
			if mode != pc.CompetitionMode_Cash {
				add(Op{At: during(), Kind: "buyin", Player: name(roster + r.n(3)), Chips: chips, Unit: 1})
			}
		case 6:
			add(Op{At: during(), Kind: "topup", Pick: "any", N: r.u(), Chips: chips, Unit: 1})
		case 7:
			add(Op{At: r.in(span/2, span), Kind: "initlevel", Arg: r.in(1, lv)})
		}
	}
	for i := some(k.addons); i > 0; i-- {
		o := Op{At: during(), Kind: "addon", Pick: []string{"seated", "seated", "seated", "any", "busted", "knocked"}[r.n(6)], N: r.u(), Chips: r.i64(200, 500, 1000), Unit: 1 + r.n(2)}
		if r.p(6) {
			o.Pick, o.Player = "", "stranger"
		}
		if r.p(6) {
			o.Chips = -r.i64(0, 300)
		}
		add(o)
	}
	for i := some(k.refunds); i > 0; i-- {
		at := r.n(opening + 20000)
		if r.p(15) {
			at = during()
		}
		o := Op{At: at, Kind: "refund", Pick: "any", N: r.u()}
		if r.p(5) {
			o.Pick, o.Player = "", "stranger"
		}
		add(o)
		if r.p(60) {
			add(Op{At: at + r.in(0, 8000), Kind: "buyin", Player: name(roster + 3 + i), Chips: chips, Unit: 1})
		}
	}
	if mode == pc.CompetitionMode_Cash {
		for i := r.n(roster + 4); i > 0; i-- {
			at := during()
			if r.p(20) {
				at = r.n(opening)
			}
			add(Op{At: at, Kind: "cashout", Pick: "any", N: r.u()})
		}
	}
	if mode == pc.CompetitionMode_CT {
		for i := r.n(3); i > 0; i-- {
			add(Op{At: during(), Kind: "quit", Pick: "bustedseated", N: r.u()})
		}
	}
	// leaves and quits nobody may make
	for i := 0; i < 2; i++ {
		if r.p(20) {
			o := Op{At: during(), Kind: []string{"cashout", "quit"}[i], Pick: []string{"any", "busted", "knocked"}[r.n(3)], N: r.u()}
			if r.p(40) || mode == pc.CompetitionMode_Cash && i == 0 {
				o.Pick, o.Player = "", "stranger"
			}
			add(o)
		}
	}
	if r.p(k.initlvl) && lv > 1 {
		for i := r.in(1, 2); i > 0; i-- {
			// stay inside the registration levels
			okl := []int{}
			for x, l := range b.Levels {
				if l.Level > 0 && (b.FinalBuyInLevelIndex == pc.NoStopBuyInIndex || x <= b.FinalBuyInLevelIndex) {
					okl = append(okl, l.Level)
				}
			}
			if len(okl) > 0 {
				add(Op{At: r.n(opening + 5000), Kind: "initlevel", Arg: okl[r.n(len(okl))]})
			}
		}
	}
	if r.p(k.closes) {
		at := r.in(span/10, span)
		n := 1
		if r.p(40) {
			n = 2
		}
		for i := 0; i < n; i++ {
			add(Op{At: at + i*r.ii(0, 0, 1, 800), Kind: "close", Str: string([]pc.CompetitionStateStatus{pc.CompetitionStateStatus_ForceEnd, pc.CompetitionStateStatus_End, pc.CompetitionStateStatus_ForceEnd}[r.n(3)])})
		}
	} else if mode != pc.CompetitionMode_CT || r.p(20) {
		add(Op{At: span - 10000 + r.n(3000), Kind: "close", Str: string(pc.CompetitionStateStatus_End)})
	}
	for i := some(k.after); i > 0; i-- {
		at := span - 6000 + r.n(12000)
		switch r.n(5) {
		case 0:
			add(Op{At: at, Kind: "buyin", Player: name(r.n(roster + 3)), Chips: chips, Unit: 1})
		case 1, 2:
			add(Op{At: at, Kind: "addon", Pick: "any", N: r.u(), Chips: chips, Unit: 1})
		case 3:
			if mode == pc.CompetitionMode_MTT {
				add(Op{At: at, Kind: "start"})
			}
		case 4:
			add(Op{At: at, Kind: "topup", Pick: "any", N: r.u(), Chips: chips, Unit: 1})
		}
	}
	if k.multi && r.p(20) {
		add(Op{At: r.in(span/2, span), Kind: "release"})
	}
	// faults
	fid := 0
	fault := func(kind, method string, nth, ms int) {
		fid++
		sc.Faults = append(sc.Faults, Fault{ID: fmt.Sprintf("f%d.%d", ci, fid), Kind: kind, Comp: ci, Method: method, Nth: nth, Ms: ms})
	}
	if r.p(k.dup) {
		for i := r.in(1, 6); i > 0; i-- {
			fault("dup", "settled", r.in(1, 12), r.ii(0, 0, 1, 100, 400, 700))
		}
	}
	if r.p(k.stale) {
		for i := r.in(1, 3); i > 0; i-- {
			fault("stale-dup", "settled", r.in(1, 12), r.in(5000, 60000))
		}
	}
	if r.p(k.slow) {
		ms := []string{"PlayerReserve", "PlayersLeave", "UpdateTablePlayers", "SetUpTableGame", "StartTableGame", "UpdateBlind", "PlayerRedeemChips", "CloseTable", "PauseTable", "ReleaseTable", "CreateTable"}
		for i := r.in(1, 6); i > 0; i-- {
			kind := "slow-before"
			if r.p(50) {
				kind = "slow-after"
			}
			fault(kind, ms[r.n(len(ms))], r.in(1, 10), r.ii(5, 100, 800, 2500))
		}
	}
	if r.p(k.slowSet) {
		for i := r.in(1, 4); i > 0; i-- {
			fault("slow-deliver", "settled", r.in(1, 12), r.ii(5, 100, 800, 2500))
		}
	}
	in := []string{"PlayersLeave@quit", "PlayersLeave@quit", "PlayersLeave@cashout", "PlayersLeave@refund", "PlayerReserve@buyin", "PlayerRedeemChips@addon", "CloseTable@close"}
	if mode == pc.CompetitionMode_CT {
		in = []string{"PlayersLeave@quit", "PlayersLeave@quit", "PlayersLeave@quit", "PlayerReserve@buyin", "PlayerRedeemChips@addon", "CloseTable@close"}
	}
	if r.p(k.slowLeave) {
		for i := r.in(1, 3); i > 0; i-- {
			fault([]string{"slow-before", "slow-after"}[r.n(2)], in[r.n(len(in))], r.ii(1, 1, 2, r.in(1, 8)), r.ii(800, 2500))
		}
	}
	if k.fails {
		ms := []string{"PlayerReserve", "PlayersLeave", "PlayersLeave", "UpdateTablePlayers", "SetUpTableGame", "SetUpTableGame", "StartTableGame", "UpdateBlind", "PlayerRedeemChips", "CloseTable", "CloseTable", "PauseTable", "ReleaseTable", "CreateTable"}
		for i := r.in(1, 4); i > 0; i-- {
			fault("err", ms[r.n(len(ms))], r.ii(1, 1, 2, 3, r.in(1, 10)), 0)
		}
		if r.p(30) {
			fault("err", in[r.n(len(in))], r.in(1, 3), 0)
		}
	}
	if r.p(k.errs) {
		for i := r.in(1, 3); i > 0; i-- {
			fault("err", []string{"UpdateBlind", "ReleaseTable"}[r.n(2)], r.in(1, 8), 0)
		}
	}
}
