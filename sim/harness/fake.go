package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"time"

	"verif/simrt"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
)

// The modelled table service. It mirrors the observable contract of
// github.com/weedbox/pokertable v0.1.83 (the tables the engine is deployed
// with): same statuses, same update notifications, same locking, same timers;
// hands are produced from a seeded generator instead of a card game. It is
// kinder than the real tables where those lose chips or stall by themselves,
// so that whatever goes wrong is the competition's doing.

// Backend implements pc.TableManagerBackend.
type Backend struct {
	w      *World
	direct *Comp // non-nil: private backend of one competition, events through the registered callbacks
	onUpd  func(*pokertable.Table)
	onRes  func(string, *pokertable.TablePlayerState)
	onRdy  func(string, int, []*pokertable.TablePlayerState)
	tables map[string]*FTable
}

// FTable is one modelled table.
type FTable struct {
	openedAt, leaveAsked time.Time // the hand in play opened; the last PlayersLeave was asked
	b                    *Backend
	c                    *Comp
	ord                  int // ordinal within the competition
	mu                   simrt.Mutex
	tb                   *pokertable.Table
	gone                 bool // closed or released: no longer reachable
	rel                  bool
	readyG               int              // generation of the sit-down group
	setupG               int              // generation of the hand set-up group
	setup                bool             // a set-up group is pending
	pend                 map[string]int64 // chips bought during the hand
	inHand               bool
	opening              bool
	late                 bool // asked to open a hand while its blinds were still a break's
	standby              bool // between two hands
	handNo               int
	initial              map[string]int64 // chips at the start of the hand
	parts                map[string]bool  // participants of the hand
	hands                map[string]int   // hands played at this table per player
	advP                 bool             // paused because of advancement
	pausedN              int
	okSince              time.Time
	okGC                 int
	createdAt            time.Time
	level                []int64 // last blinds received (level, ante, dealer, sb, bb)
	createdBlind         pokertable.TableBlindState
	breakAsked           map[int]int // break ordinal -> set-ups asked for after it
	setups               []setupRec
	settledGC            int
	stale                *pokertable.Table
}

type setupRec struct {
	at   time.Time
	gc   int
	kind string
	n    int
}

var errNotSeated = errors.New("table service: player is not at the table")

func newBackend(w *World, direct *Comp) *Backend {
	return &Backend{w: w, direct: direct, tables: map[string]*FTable{},
		onUpd: func(*pokertable.Table) {}, onRes: func(string, *pokertable.TablePlayerState) {}, onRdy: func(string, int, []*pokertable.TablePlayerState) {}}
}

func (b *Backend) OnTableUpdated(fn func(*pokertable.Table)) { b.onUpd = fn }
func (b *Backend) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {
	b.onRes = fn
}
func (b *Backend) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
	b.onRdy = fn
}

// svcErr is one failure of the table service; each is a value of its own, so that
// where it is reported can be told.
type svcErr struct {
	method, table string
	n             int
	by            string // the call it was met in, if any
	at            time.Time
	done          bool
}

func (e *svcErr) Error() string {
	return fmt.Sprintf("table service: injected failure of %s #%d", e.method, e.n)
}

// unknownTable: the property broken when a request names a table nobody created.
var unknownTable = map[string]string{
	"PlayerReserve": "C03", "PlayerRedeemChips": "C04", "UpdateBlind": "C06", "UpdateTablePlayers": "C12",
	"PauseTable": "C13", "CloseTable": "C13", "SetUpTableGame": "C14", "StartTableGame": "C14",
}

// enter is the start of every request of the competition to the table service.
func (b *Backend) enter(method, tableID string) (*FTable, *Comp, error) {
	t := b.tables[tableID]
	var c *Comp
	if t != nil {
		c = t.c
	} else {
		c = b.w.tableOwner(tableID, b)
	}
	if c == nil {
		// not even the name of one: nobody but the competition asks
		for _, x := range b.w.comps {
			if unknownTable[method] != "" && (len(b.w.comps) == 1 || x.own == b) {
				b.w.violate(x, unknownTable[method], "unknown-table", "%s asks for a table %q that never existed", method, tableID)
			}
		}
		return nil, nil, pokertable.ErrManagerTableNotFound
	}
	c.backend++
	if c.isMTT() {
		g := int64(simrt.GID())
		c.backGID[g]++
		if len(c.backGID) > 1 && len(c.recs) > 0 {
			c.regOverlap = true
		}
		for _, r := range c.recs {
			// a settlement that waited or was held up may not have told the table yet
			if r.gid != g && (r.behind || time.Since(r.lo) > 500*time.Millisecond || b.w.s.NPreempts() != r.pre) {
				c.regOverlap = true
			}
		}
	}
	c.calls[method]++
	n := c.calls[method]
	b.w.nRequests++
	if t != nil && (method == "SetUpTableGame" || method == "StartTableGame") {
		c.checkNotBreak(t, method)
	}
	c.fire(method)
	within := c.within(method)
	if within != "" {
		c.calls[within]++
	}
	if f := c.faultOf("slow-before", method, n, within); f != nil {
		b.w.injected(f)
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
		simrt.Gate()
	} else if b.w.switchPoint(c, method, n, 0) {
		simrt.Switch()
	}
	if t == nil {
		b.w.violate(c, unknownTable[method], "unknown-table", "%s asks for a table %q that never existed", method, tableID)
	}
	if f := c.faultOf("err", method, n, within); f != nil {
		b.w.injected(f)
		if t != nil && method == "UpdateBlind" {
			c.blindTaint[t] = true
		}
		e := &svcErr{method: method, table: tableID, n: n, at: time.Now()}
		c.svcErrs = append(c.svcErrs, e)
		return t, c, e
	}
	if t == nil || t.gone {
		return t, c, pokertable.ErrManagerTableNotFound
	}
	return t, c, nil
}

func (b *Backend) leave(c *Comp, method string) {
	if c == nil {
		return
	}
	n := c.calls[method]
	if f := c.faultOf("slow-after", method, n, c.within(method)); f != nil {
		b.w.injected(f)
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
		simrt.Gate()
	} else if b.w.switchPoint(c, method, n, 1) {
		simrt.Switch()
	}
	if c.isMTT() {
		g := int64(simrt.GID())
		if c.backGID[g]--; c.backGID[g] <= 0 {
			delete(c.backGID, g)
		}
	}
	c.backend--
}

// ---------------------------------------------------------------- requests

func (b *Backend) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	c := b.w.byID[s.Meta.CompetitionID]
	if c == nil {
		return nil, errors.New("table service: unknown competition " + s.Meta.CompetitionID)
	}
	c.backend++
	c.calls["CreateTable"]++
	asked := -1 // the level when the table was asked for
	if c.st != nil && c.st.State != nil && c.st.State.BlindState != nil {
		asked = c.st.State.BlindState.CurrentLevelIndex
	}
	n := c.calls["CreateTable"]
	c.fire("CreateTable")
	b.w.nRequests++
	defer b.leave(c, "CreateTable")
	if f := c.fault("slow-before", "CreateTable", n); f != nil {
		b.w.injected(f)
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
		simrt.Gate()
	}
	if f := c.fault("err", "CreateTable", n); f != nil {
		b.w.injected(f)
		e := &svcErr{method: "CreateTable", table: s.TableID, n: n, at: time.Now()}
		c.svcErrs = append(c.svcErrs, e)
		return nil, e
	}
	if len(s.JoinPlayers) > s.Meta.TableMaxSeatCount {
		c.onOverfull("CreateTable", s.TableID, len(s.JoinPlayers), s.Meta.TableMaxSeatCount)
		return nil, errors.New("table service: not enough seats")
	}
	if _, dup := b.tables[s.TableID]; dup {
		return nil, errors.New("table service: duplicate table id")
	}
	st := pokertable.TableStateStatus_TableCreated
	if s.Blind.Level == -1 {
		st = pokertable.TableStateStatus_TablePausing
	}
	bl := s.Blind
	t := &FTable{b: b, c: c, ord: len(c.order), pend: map[string]int64{}, hands: map[string]int{}, initial: map[string]int64{}, parts: map[string]bool{}, breakAsked: map[int]int{}, createdAt: time.Now(), createdBlind: s.Blind}
	t.level = []int64{int64(bl.Level), bl.Ante, bl.Dealer, bl.SB, bl.BB}
	seatMap := make([]int, s.Meta.TableMaxSeatCount)
	for i := range seatMap {
		seatMap[i] = -1
	}
	t.tb = &pokertable.Table{ID: s.TableID, Meta: s.Meta, State: &pokertable.TableState{
		Status: st, StartAt: -1, SeatMap: seatMap, BlindState: &bl,
		CurrentDealerSeat: -1, CurrentSBSeat: -1, CurrentBBSeat: -1,
		PlayerStates: []*pokertable.TablePlayerState{}, GamePlayerIndexes: []int{}, NextBBOrderPlayerIDs: []string{},
	}}
	b.tables[s.TableID] = t
	c.tables[s.TableID] = t
	c.order = append(c.order, t)
	b.w.log(c, "table %d created status=%s players=%d blind=%d", t.ord, st, len(s.JoinPlayers), bl.Level)
	c.onTableCreate(t, s, asked)
	t.emit("CreateTable")
	if len(s.JoinPlayers) > 0 {
		if err := t.batchAdd(s.JoinPlayers); err != nil {
			return nil, err
		}
		if c.spec.Meta.Mode == pc.CompetitionMode_MTT && t.tb.State.Status != pokertable.TableStateStatus_TablePausing {
			t.tb.State.Status = pokertable.TableStateStatus_TableBalancing
		}
		t.emit("CreateTable -> add")
	}
	if c.spec.LivePtr {
		return t.tb, nil
	}
	return t.clone(), nil
}

func (b *Backend) PauseTable(id string) error {
	t, c, err := b.enter("PauseTable", id)
	defer b.leave(c, "PauseTable")
	if err != nil {
		return err
	}
	b.w.log(c, "table %d PauseTable", t.ord)
	t.tb.State.Status = pokertable.TableStateStatus_TablePausing
	if c.waitingPause(t) {
		return nil
	}
	t.advP = true
	c.onPauseTable(t)
	return nil
}

func (b *Backend) CloseTable(id string) error {
	at := time.Now()
	t, c, err := b.enter("CloseTable", id)
	defer b.leave(c, "CloseTable")
	if err != nil {
		return err
	}
	b.w.log(c, "table %d CloseTable", t.ord)
	c.onCloseTable(t, at)
	t.tb.State.Status = pokertable.TableStateStatus_TableClosed
	t.rel = true
	t.setupG++
	t.setup = false
	t.emit("CloseTable")
	t.gone = true
	return nil
}

func (b *Backend) ReleaseTable(id string) error {
	t, c, err := b.enter("ReleaseTable", id)
	defer b.leave(c, "ReleaseTable")
	if err != nil {
		return err
	}
	b.w.log(c, "table %d ReleaseTable", t.ord)
	t.rel = true
	t.setupG++
	t.setup = false
	t.gone = true
	return nil
}

func (b *Backend) StartTableGame(id string) error {
	t, c, err := b.enter("StartTableGame", id)
	defer b.leave(c, "StartTableGame")
	if err != nil {
		return err
	}
	c.onEngineStart(t, "start")
	t.startGame()
	return nil
}

func (t *FTable) startGame() {
	if t.tb.State.StartAt != -1 {
		return
	}
	t.tb.State.StartAt = time.Now().Unix()
	t.c.w.log(t.c, "table %d game started", t.ord)
	t.emit("StartTableGame")
	ps := t.clone().State.PlayerStates
	gc := t.tb.State.GameCount
	t.c.deliverReady(t, gc, ps)
}

func (b *Backend) SetUpTableGame(id string, gc int, parts map[string]int) error {
	if t := b.tables[id]; t != nil {
		t.c.checkSetup(t, gc, parts)
	}
	t, c, err := b.enter("SetUpTableGame", id)
	defer b.leave(c, "SetUpTableGame")
	if err != nil {
		return err
	}
	c.onEngineSetup(t, gc, parts)
	t.setUp(len(parts))
	return nil
}

func (b *Backend) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	t, c, err := b.enter("UpdateBlind", id)
	defer b.leave(c, "UpdateBlind")
	if err != nil {
		return err
	}
	bs := t.tb.State.BlindState
	bs.Level, bs.Ante, bs.Dealer, bs.SB, bs.BB = level, ante, dealer, sb, bb
	t.level = []int64{int64(level), ante, dealer, sb, bb}
	b.w.log(c, "table %d blind level=%d", t.ord, level)
	return nil
}

func (b *Backend) UpdateTablePlayers(id string, join []pokertable.JoinPlayer, leave []string) (map[string]int, error) {
	t, c, err := b.enter("UpdateTablePlayers", id)
	defer b.leave(c, "UpdateTablePlayers")
	if c != nil {
		c.onAssign(id, join)
	}
	if err != nil {
		return nil, err
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	b.w.log(c, "table %d UpdateTablePlayers join=%v leave=%v", t.ord, jps(join), leave)
	c.onJoin(t, join, "UpdateTablePlayers")
	if len(leave) > 0 {
		if err := t.remove(leave, "UpdateTablePlayers"); err != nil {
			return nil, err
		}
	}
	if len(join) > 0 {
		if len(t.tb.State.PlayerStates)+len(join) > t.tb.Meta.TableMaxSeatCount {
			c.onOverfull("UpdateTablePlayers", t.tb.ID, len(t.tb.State.PlayerStates)+len(join), t.tb.Meta.TableMaxSeatCount)
			return nil, pokertable.ErrTableNoEmptySeats
		}
		for _, j := range join {
			if t.idx(j.PlayerID) >= 0 {
				c.onDoubleSeat(t, j.PlayerID, "UpdateTablePlayers")
				return nil, errors.New("table service: player already seated")
			}
		}
		if err := t.batchAdd(join); err != nil {
			return nil, err
		}
	}
	t.emit("UpdateTablePlayers")
	m := map[string]int{}
	for _, p := range t.tb.State.PlayerStates {
		m[p.PlayerID] = p.Seat
	}
	return m, nil
}

func (b *Backend) PlayerReserve(id string, jp pokertable.JoinPlayer) error {
	t, c, err := b.enter("PlayerReserve", id)
	defer b.leave(c, "PlayerReserve")
	if err != nil {
		if c != nil {
			c.onReserveFail(jp, err)
		}
		return err
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.gone {
		c.onReserveFail(jp, pokertable.ErrManagerTableNotFound)
		return pokertable.ErrManagerTableNotFound
	}
	b.w.log(c, "table %d PlayerReserve %s %d", t.ord, jp.PlayerID, jp.RedeemChips)
	i := t.idx(jp.PlayerID)
	if i < 0 {
		if len(t.tb.State.PlayerStates) >= t.tb.Meta.TableMaxSeatCount {
			c.onReserveFail(jp, pokertable.ErrTableNoEmptySeats)
			return pokertable.ErrTableNoEmptySeats
		}
		if err := t.batchAdd([]pokertable.JoinPlayer{jp}); err != nil {
			return err
		}
	} else {
		t.credit(jp.PlayerID, jp.RedeemChips)
		t.reserved(t.tb.State.PlayerStates[i])
	}
	t.emit("PlayerReserve")
	return nil
}

func (b *Backend) PlayerJoin(id, player string) error {
	t, c, err := b.enter("PlayerJoin", id)
	defer b.leave(c, "PlayerJoin")
	if err != nil {
		return err
	}
	return t.join(player)
}

func (b *Backend) PlayerRedeemChips(id string, jp pokertable.JoinPlayer) error {
	t, c, err := b.enter("PlayerRedeemChips", id)
	defer b.leave(c, "PlayerRedeemChips")
	if err != nil {
		c.onRedeemFail(jp, err)
		return err
	}
	i := t.idx(jp.PlayerID)
	if i < 0 {
		c.onRedeemFail(jp, pokertable.ErrTablePlayerNotFound)
		return pokertable.ErrTablePlayerNotFound
	}
	b.w.log(c, "table %d PlayerRedeemChips %s %d", t.ord, jp.PlayerID, jp.RedeemChips)
	c.onRedeem(t, jp)
	t.credit(jp.PlayerID, jp.RedeemChips)
	t.emit("PlayerRedeemChips")
	return nil
}

func (b *Backend) PlayersLeave(id string, players []string) error {
	asked := time.Now()
	t, c, err := b.enter("PlayersLeave", id)
	defer b.leave(c, "PlayersLeave")
	if err != nil {
		return err
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	b.w.log(c, "table %d PlayersLeave %v", t.ord, players)
	t.leaveAsked = asked
	if err := t.remove(players, "PlayersLeave"); err != nil {
		return err
	}
	t.emit("PlayersLeave")
	return nil
}

func (b *Backend) UpdateTable(t *pokertable.Table) {}

// ---------------------------------------------------------------- the table

func jps(js []pokertable.JoinPlayer) []string {
	var r []string
	for _, j := range js {
		r = append(r, fmt.Sprintf("%s:%d", j.PlayerID, j.RedeemChips))
	}
	return r
}

func (t *FTable) idx(p string) int {
	for i, s := range t.tb.State.PlayerStates {
		if s.PlayerID == p {
			return i
		}
	}
	return -1
}

func (t *FTable) clone() *pokertable.Table {
	d, err := json.Marshal(t.tb)
	if err != nil {
		panic(err)
	}
	var c pokertable.Table
	if err := json.Unmarshal(d, &c); err != nil {
		panic(err)
	}
	return &c
}

// credit adds bought chips; during a hand of that player they are put on the
// table when it ends.
func (t *FTable) credit(p string, chips int64) {
	if t.inHand && t.parts[p] {
		t.pend[p] += chips
		return
	}
	t.tb.State.PlayerStates[t.idx(p)].Bankroll += chips
}

// stack is what the table owes the player.
func (t *FTable) stack(p string) (int64, bool) {
	i := t.idx(p)
	if i < 0 {
		return 0, false
	}
	return t.tb.State.PlayerStates[i].Bankroll + t.pend[p], true
}

func (t *FTable) remove(ids []string, via string) error {
	drop := map[string]bool{}
	missing := false
	for _, id := range ids {
		drop[id] = true
		if t.idx(id) < 0 {
			missing = true
		} else {
			t.c.onLeave(t, id, via)
		}
	}
	st := t.tb.State
	var keep []*pokertable.TablePlayerState
	newIdx := map[string]int{}
	for _, p := range st.PlayerStates {
		if !drop[p.PlayerID] {
			newIdx[p.PlayerID] = len(keep)
			keep = append(keep, p)
		}
	}
	inGame := st.Status == pokertable.TableStateStatus_TableGameOpened || st.Status == pokertable.TableStateStatus_TableGamePlaying || st.Status == pokertable.TableStateStatus_TableGameSettled
	if inGame {
		gpi := []int{}
		for _, i := range st.GamePlayerIndexes {
			if ni, ok := newIdx[st.PlayerStates[i].PlayerID]; ok {
				gpi = append(gpi, ni)
			}
		}
		st.GamePlayerIndexes = gpi
	}
	if keep == nil {
		keep = []*pokertable.TablePlayerState{}
	}
	st.PlayerStates = keep
	for i := range st.SeatMap {
		st.SeatMap[i] = -1
	}
	for i, p := range keep {
		st.SeatMap[p.Seat] = i
	}
	if missing {
		return errNotSeated
	}
	return nil
}

func (t *FTable) batchAdd(js []pokertable.JoinPlayer) error {
	st := t.tb.State
	seats := map[int]bool{} // asked for by number
	for _, j := range js {
		if j.Seat == pokertable.UnsetValue {
			continue
		}
		if j.Seat < 0 || j.Seat >= len(st.SeatMap) || st.SeatMap[j.Seat] >= 0 || seats[j.Seat] {
			return errors.New("table service: the seat asked for is not free")
		}
		seats[j.Seat] = true
	}
	var added []*pokertable.TablePlayerState
	for _, j := range js {
		var free []int
		for s, i := range st.SeatMap {
			if i < 0 && !seats[s] {
				free = append(free, s)
			}
		}
		if j.Seat != pokertable.UnsetValue {
			free = []int{j.Seat}
		}
		k := int(simrt.Hash(t.c.w.sc.Seed, t.c.key, uint64(t.ord), simrt.HashStr(j.PlayerID), 11) % uint64(len(free)))
		p := &pokertable.TablePlayerState{PlayerID: j.PlayerID, Seat: free[k], Positions: []string{}, Bankroll: j.RedeemChips, GameStatistics: pokertable.NewPlayerGameStatistics()}
		st.SeatMap[free[k]] = len(st.PlayerStates)
		st.PlayerStates = append(st.PlayerStates, p)
		added = append(added, p)
		delete(t.hands, j.PlayerID)
	}
	t.armReady()
	for _, p := range added {
		t.reserved(p)
	}
	w, c := t.c.w, t.c
	for _, p := range added {
		id := p.PlayerID
		h := simrt.Hash(w.sc.Seed, c.key, uint64(t.ord), simrt.HashStr(id), uint64(c.joins), 12)
		c.joins++
		if int(h%100) < c.spec.JoinSlow {
			continue
		}
		d := time.Duration(h>>8%3000) * time.Millisecond
		simrt.GoNamed(fmt.Sprintf("sit:%s:%d:%s:%d", c.spec.ID, t.ord, id, c.joins), func() {
			time.Sleep(d)
			simrt.Gate()
			if !t.gone && t.idx(id) >= 0 {
				t.join(id)
			}
		})
	}
	return nil
}

// armReady restarts the 17 s sit-down group.
func (t *FTable) armReady() {
	t.readyG++
	g := t.readyG
	c := t.c
	simrt.GoNamed(fmt.Sprintf("ready:%s:%d:%d", c.spec.ID, t.ord, g), func() {
		time.Sleep(17 * time.Second)
		simrt.Gate()
		if g == t.readyG && !t.gone {
			t.readyDone()
		}
	})
}

func (t *FTable) allIn() bool {
	for _, p := range t.tb.State.PlayerStates {
		if !p.IsIn {
			return false
		}
	}
	return len(t.tb.State.PlayerStates) > 0
}

func (t *FTable) readyDone() {
	t.readyG++
	for _, p := range append([]*pokertable.TablePlayerState(nil), t.tb.State.PlayerStates...) {
		if !p.IsIn && t.idx(p.PlayerID) >= 0 {
			t.join(p.PlayerID)
		}
	}
	isIn, alive := 0, 0
	for _, p := range t.tb.State.PlayerStates {
		if p.IsIn {
			isIn++
		}
		if p.Bankroll > 0 {
			alive++
		}
	}
	running := false
	switch t.tb.State.Status {
	case pokertable.TableStateStatus_TableGameOpened, pokertable.TableStateStatus_TableGamePlaying, pokertable.TableStateStatus_TableGameSettled, pokertable.TableStateStatus_TableGameStandby:
		running = true
	}
	if isIn >= 2 && alive >= 2 && !running && t.tb.State.BlindState.Level > 0 && t.tb.State.GameCount == 0 && t.c.spec.Meta.Mode == pc.CompetitionMode_MTT {
		t.startGame()
	}
}

func (t *FTable) join(id string) error {
	i := t.idx(id)
	if i < 0 {
		return pokertable.ErrTablePlayerNotFound
	}
	p := t.tb.State.PlayerStates[i]
	if p.IsIn {
		return nil
	}
	p.IsIn = true
	t.c.w.log(t.c, "table %d %s sits down", t.ord, id)
	if t.allIn() {
		g := t.readyG
		simrt.GoNamed(fmt.Sprintf("readied:%s:%d:%d", t.c.spec.ID, t.ord, g), func() {
			if g == t.readyG && !t.gone {
				t.readyDone()
			}
		})
	}
	t.emit("PlayerJoin")
	return nil
}

func (t *FTable) setUp(n int) {
	t.setupG++
	g := t.setupG
	t.setup = true
	d := 2 * time.Second
	if h := simrt.Hash(t.c.w.sc.Seed, t.c.key, uint64(t.ord), uint64(g), 13); h%3 == 0 {
		d = time.Duration(h>>8%2000) * time.Millisecond // everybody was ready earlier
	}
	simrt.GoNamed(fmt.Sprintf("open:%s:%d:%d", t.c.spec.ID, t.ord, g), func() {
		time.Sleep(d)
		simrt.Gate()
		if g != t.setupG || t.gone {
			return
		}
		t.setup = false
		if n < 2 {
			return
		}
		t.open()
	})
}

func (t *FTable) active() []int {
	var r []int
	for i, p := range t.tb.State.PlayerStates {
		if p.IsIn && p.Bankroll > 0 {
			r = append(r, i)
		}
	}
	return r
}

func (t *FTable) tryOpen() (bool, bool) {
	bs := t.tb.State.BlindState
	if bs.Level == 0 || bs.Ante == -1 || bs.SB == -1 {
		return false, false
	}
	if bs.Level == -1 {
		return false, true
	}
	return len(t.active()) >= 2, false
}

func (t *FTable) open() {
	t.mu.Lock()
	if t.tb.State.GameState != nil || t.inHand {
		t.mu.Unlock()
		return
	}
	t.opening = true
	ok, brk := t.tryOpen()
	for i := 0; !ok && !brk && i < 10; i++ {
		time.Sleep(3 * time.Second)
		simrt.Gate()
		if t.inHand || t.gone {
			break
		}
		ok, brk = t.tryOpen()
	}
	t.opening = false
	if brk && t.c.st != nil && !t.c.breaking() {
		t.late = true
	}
	if !ok || t.gone {
		t.mu.Unlock()
		return
	}
	st := t.tb.State
	c := t.c
	n := len(st.PlayerStates)
	r := newRng(c.w.sc.Seed, c.key, uint64(t.ord), uint64(st.GameCount+1), 14)
	act := map[int]bool{}
	for _, i := range t.active() {
		act[i] = true
	}
	// newcomers may have to wait for the blinds to pass
	for _, i := range t.active() {
		if len(act) <= 2 {
			break
		}
		p := st.PlayerStates[i]
		if t.hands[p.PlayerID] == 0 && st.GameCount > 0 && r.p(c.spec.Hands.SitOut) {
			delete(act, i)
			t.hands[p.PlayerID] = 1
		}
	}
	st.GameCount++
	st.Status = pokertable.TableStateStatus_TableGameOpened
	st.GamePlayerIndexes = []int{}
	t.parts = map[string]bool{}
	t.initial = map[string]int64{}
	start := r.n(n)
	for k := 0; k < n; k++ {
		i := (start + k) % n
		p := st.PlayerStates[i]
		p.IsParticipated = act[i]
		p.GameStatistics = pokertable.NewPlayerGameStatistics()
		p.Positions = []string{}
		if act[i] {
			st.GamePlayerIndexes = append(st.GamePlayerIndexes, i)
			t.parts[p.PlayerID] = true
			t.initial[p.PlayerID] = p.Bankroll
		}
	}
	m := len(st.GamePlayerIndexes)
	st.CurrentDealerSeat = st.PlayerStates[st.GamePlayerIndexes[0]].Seat
	st.CurrentSBSeat = st.PlayerStates[st.GamePlayerIndexes[1%m]].Seat
	st.CurrentBBSeat = st.PlayerStates[st.GamePlayerIndexes[2%m]].Seat
	t.inHand = true
	t.openedAt = time.Now()
	t.standby = false
	t.handNo++
	c.w.nHands++
	c.onHandOpen(t)
	c.w.log(c, "table %d hand %d opened with %d players", t.ord, st.GameCount, m)
	gs := &pokerface.GameState{GameID: fmt.Sprintf("g%d.%d", t.ord, st.GameCount)}
	st.GameState = gs
	t.emit("tableGameOpen")
	t.mu.Unlock()

	st.Status = pokertable.TableStateStatus_TableGamePlaying
	bs := *st.BlindState
	st.GameBlindState = &bs
	dur := time.Duration(r.in(c.spec.Hands.MinMs, c.spec.Hands.MaxMs)) * time.Millisecond
	t.emit("playing")
	if c.spec.Hands.Mid {
		time.Sleep(dur / 2)
		simrt.Gate()
		t.emit("mid-hand")
		dur -= dur / 2
	}
	time.Sleep(dur)
	simrt.Gate()
	t.settle(r)
	t.continueGame()
}

// settle plays the hand out: chips move between the participants only.
func (t *FTable) settle(r *rng) {
	st := t.tb.State
	c := t.c
	hp := c.spec.Hands
	type pl struct {
		i     int
		p     *pokertable.TablePlayerState
		stake int64
		final int64
	}
	var ps []*pl
	for _, i := range st.GamePlayerIndexes {
		p := st.PlayerStates[i]
		ps = append(ps, &pl{i: i, p: p, final: p.Bankroll})
	}
	n := len(ps)
	if n == 0 {
		t.inHand = false
		st.GameState = nil
		return
	}
	kind := r.pick(hp.Walk, hp.Normal, hp.AllIn)
	bb := st.GameBlindState.BB
	if bb <= 0 {
		bb = 1
	}
	unit := hp.Unit
	if unit <= 0 {
		unit = 1
	}
	power := func() int { return r.in(1, 4000) }
	powers := make([]int, n)
	folded := make([]bool, n)
	for i := range powers {
		powers[i] = power()
	}
	bbIdx := 2 % n
	win := []int{}
	switch kind {
	case 0: // everybody folds to the big blind
		for i := range ps {
			if i == bbIdx {
				continue
			}
			folded[i] = true
			ps[i].p.GameStatistics.IsFold = true
			ps[i].p.GameStatistics.FoldRound = pokertable.GameRound_Preflop
		}
		lose := 1 % n
		if lose == bbIdx {
			lose = 0
		}
		amt := min64(ps[lose].final, max64(1, bb/2))
		if n > 1 {
			ps[lose].stake = amt
		}
		win = []int{bbIdx}
	default:
		// contributors
		k := n
		if n > 2 {
			k = r.in(2, n)
		}
		order := r.perm(n)
		in := order[:k]
		winners := 1
		if k > 2 && r.p(12) {
			winners = 2
		}
		win = append(win, in[:winners]...)
		maxStake := int64(0)
		for _, i := range win {
			if ps[i].final > maxStake {
				maxStake = ps[i].final
			}
		}
		allins := 0
		for q, i := range in {
			if q < winners {
				continue
			}
			var s int64
			if kind == 2 && allins < max(1, hp.AllInPlayers) {
				s = ps[i].final
				allins++
			} else {
				s = bb * int64(r.in(1, 4))
				s = (s + unit - 1) / unit * unit
			}
			if s > ps[i].final {
				s = ps[i].final
			}
			if s > maxStake {
				s = maxStake / max64(1, unit) * unit
				if s == 0 {
					s = min64(maxStake, ps[i].final)
				}
			}
			ps[i].stake = s
		}
		for i := range ps {
			is := false
			for _, j := range in {
				if i == j {
					is = true
				}
			}
			gs := &ps[i].p.GameStatistics
			w := false
			for _, j := range win {
				if i == j {
					w = true
				}
			}
			if !is || (!w && kind == 1 && r.p(40)) {
				folded[i] = true
				gs.IsFold = true
				gs.FoldRound = []string{pokertable.GameRound_Preflop, pokertable.GameRound_Flop, pokertable.GameRound_Turn, pokertable.GameRound_River}[r.n(4)]
			}
			gs.ActionTimes = r.in(1, 5)
			gs.RaiseTimes = r.n(3)
			gs.CallTimes = r.n(3)
			gs.CheckTimes = r.n(3)
		}
	}
	for i := range ps {
		gs := &ps[i].p.GameStatistics
		chance := func(a, b *bool) {
			*a = r.p(50)
			*b = *a && r.p(50)
		}
		if kind != 0 {
			chance(&gs.IsVPIPChance, &gs.IsVPIP)
			chance(&gs.IsPFRChance, &gs.IsPFR)
			chance(&gs.IsATSChance, &gs.IsATS)
			chance(&gs.Is3BChance, &gs.Is3B)
			chance(&gs.IsFt3BChance, &gs.IsFt3B)
			chance(&gs.IsCheckRaiseChance, &gs.IsCheckRaise)
			chance(&gs.IsCBetChance, &gs.IsCBet)
			chance(&gs.IsFtCBChance, &gs.IsFtCB)
		}
	}
	pot := int64(0)
	for _, p := range ps {
		p.final -= p.stake
		pot += p.stake
	}
	share := pot / int64(len(win)) / unit * unit
	for q, i := range win {
		g := share
		if q == 0 {
			g = pot - share*int64(len(win)-1)
		}
		ps[i].final += g
	}
	notFold := 0
	for i := range ps {
		if !folded[i] {
			notFold++
		}
	}
	best := 0
	for _, i := range win {
		if powers[i] > best {
			best = powers[i]
		}
	}
	res := settlement.NewResult()
	gs := &pokerface.GameState{GameID: st.GameState.GameID, Result: res}
	gs.Status.CurrentEvent = "GameClosed"
	for i := range ps {
		isWin := false
		for _, j := range win {
			isWin = isWin || i == j
		}
		if isWin {
			powers[i] = best
		} else if powers[i] >= best && !folded[i] {
			powers[i] = best - 1
		}
		if !folded[i] && notFold > 1 {
			ps[i].p.GameStatistics.ShowdownWinningChance = true
			ps[i].p.GameStatistics.IsShowdownWinning = isWin
		}
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: i, Positions: []string{}, Fold: folded[i], Bankroll: ps[i].p.Bankroll, InitialStackSize: ps[i].p.Bankroll,
			Combination: &pokerface.CombinationInfo{Type: fmt.Sprintf("T%d", powers[i]%9), Cards: []string{fmt.Sprintf("C%d", powers[i])}, Power: powers[i]}})
		res.Players = append(res.Players, &settlement.PlayerResult{Idx: i, Final: ps[i].final + t.pend[ps[i].p.PlayerID], Changed: ps[i].final - ps[i].p.Bankroll})
	}
	for _, p := range ps {
		p.p.Bankroll = p.final + t.pend[p.p.PlayerID]
		delete(t.pend, p.p.PlayerID)
		t.hands[p.p.PlayerID]++
	}
	st.GameState = gs
	st.Status = pokertable.TableStateStatus_TableGameSettled
	// chips put on the table while the hand was settled in flight
	nbb := []string{}
	ms := t.tb.Meta.TableMaxSeatCount
	for i := st.CurrentBBSeat + 1; i <= ms+st.CurrentBBSeat; i++ {
		pi := st.SeatMap[i%ms]
		if pi >= 0 && st.PlayerStates[pi].Bankroll > 0 {
			nbb = append(nbb, st.PlayerStates[pi].PlayerID)
		}
	}
	st.NextBBOrderPlayerIDs = nbb
	t.inHand = false
	t.settledGC = st.GameCount
	c.w.log(c, "table %d hand %d settled kind=%d %s", t.ord, st.GameCount, kind, t.stacks())
	c.w.nSettled++
	if f := c.fault("slow-deliver", "settled", c.settles+1); f != nil {
		c.w.injected(f)
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
		simrt.Gate()
	}
	c.settles++
	if c.aimsAt("window") {
		c.armWindow(t)
	}
	if c.fire("settled") {
		simrt.Hot(func() { t.emit("SettleTableGameResult") })
		return
	}
	t.emit("SettleTableGameResult")
}

func (t *FTable) stacks() string {
	s := ""
	for _, p := range t.tb.State.PlayerStates {
		f := ""
		if !p.IsParticipated {
			f = "~"
		}
		s += fmt.Sprintf("%s%s=%d ", f, p.PlayerID, p.Bankroll)
	}
	return s
}

func (t *FTable) alive() int {
	n := 0
	for _, p := range t.tb.State.PlayerStates {
		if p.Bankroll > 0 {
			n++
		}
	}
	return n
}

func (t *FTable) continueGame() {
	st := t.tb.State
	c := t.c
	if st.Status != pokertable.TableStateStatus_TableClosed && !(st.Status == pokertable.TableStateStatus_TablePausing && c.spec.PauseEff) {
		st.Status = pokertable.TableStateStatus_TableGameStandby
	}
	st.GamePlayerIndexes = []int{}
	st.NextBBOrderPlayerIDs = []string{}
	st.GameState = nil
	t.standby = true
	for _, p := range st.PlayerStates {
		p.Positions = []string{}
		p.GameStatistics = pokertable.NewPlayerGameStatistics()
		p.IsParticipated = p.IsIn && p.Bankroll > 0
	}
	if m := c.spec.Meta.Mode; m == pc.CompetitionMode_CT || m == pc.CompetitionMode_Cash {
		if time.Now().Unix() > st.StartAt+int64(t.tb.Meta.MaxDuration) {
			time.Sleep(time.Second)
			simrt.Gate()
			c.deliverAutoEnd(t)
			return
		}
	}
	time.Sleep(time.Duration(c.spec.Hands.GameContinueMs) * time.Millisecond)
	simrt.Gate()
	if st.Status == pokertable.TableStateStatus_TableClosed || t.rel || t.inHand {
		return
	}
	if st.Status == pokertable.TableStateStatus_TablePausing && c.spec.PauseEff && t.advP {
		return
	}
	if st.BlindState.Level == -1 || t.alive() < t.tb.Meta.TableMinPlayerCount {
		st.Status = pokertable.TableStateStatus_TablePausing
		c.w.log(c, "table %d pauses", t.ord)
		t.emit("ContinueGame -> Pause")
		return
	}
	if st.Status == pokertable.TableStateStatus_TableGameStandby {
		n := len(t.active())
		if n >= 2 {
			t.setUp(n)
			return
		}
		// players with chips that have not sat down yet: the set-up group waits for them
		t.setUp(2)
	}
}

// emit reports the table to the competition, on the calling goroutine.
func (t *FTable) emit(why string) {
	t.tb.UpdateAt = time.Now().Unix()
	t.tb.UpdateSerial++
	cl := t.clone()
	t.c.w.nReports++
	t.c.deliver(t, cl, why, false)
}

func (t *FTable) reserved(p *pokertable.TablePlayerState) {
	cp := *p
	t.c.deliverReserved(t, &cp)
}

func sortedTables(m map[string]*FTable) []*FTable {
	var r []*FTable
	for _, t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ord < r[j].ord })
	return r
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// onAssign: whoever seats players at a table that cannot take them gives up at
// some point instead of asking for ever.
func (c *Comp) onAssign(id string, join []pokertable.JoinPlayer) {
	k := fmt.Sprint(id, jps(join), time.Now().UnixNano())
	if k != c.assign {
		c.assign, c.assignN = k, 0
	}
	c.assignN++
	if c.assignN < 30 {
		return
	}
	prop := "C14"
	if c.w.failing {
		prop = "C25"
	}
	c.w.violate(c, prop, "assign-spin", "a table is asked again and again, without pause, to seat %v although it refuses each time", jps(join))
	c.w.abort = true
	simrt.Switch()
}
