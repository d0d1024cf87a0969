From 961dcb1b525fba0c99cd6ae98483dbf5266081b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:35 +0000
Subject: [PATCH 01/57] fix: a settlement reported during a buy-in no longer
 deadlocks

---
 competition_engine_internal.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cf1d2f8..64265c5 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -223,13 +223,9 @@ settleCompetitionTable 桌次結算
 */
 func (ce *competitionEngine) settleCompetitionTable(table pokertable.Table, tableIdx int) {
 	gameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)
-	ce.mu.Lock()
-	if isGameSettled, ok := ce.gameSettledRecords.Load(gameSettledRecordID); ok && isGameSettled.(bool) {
-		ce.mu.Unlock()
+	if _, isGameSettled := ce.gameSettledRecords.LoadOrStore(gameSettledRecordID, true); isGameSettled {
 		return
 	}
-	ce.gameSettledRecords.Store(gameSettledRecordID, true)
-	ce.mu.Unlock()
 
 	// 更新玩家相關賽事數據
 	ce.updatePlayerCompetitionTableRecords(table)
-- 
2.43.0


From caea9b7099747dec29ee238525fd49c61a53c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 02/57] fix: buy-in, add-on and refund decide and act under one
 lock

---
 competition_engine.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a0bd264..5ee3257 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -397,6 +397,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -463,7 +466,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	var competitionPlayer *CompetitionPlayer
 
 	// do logic
-	ce.mu.Lock()
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
@@ -498,7 +500,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		ce.refreshPlayerCompetitionRanks()
 		competitionPlayer = cp
 	}
-	defer ce.mu.Unlock()
 
 	if isBuyIn {
 		ce.emitEvent(fmt.Sprintf("PlayerBuyIn -> %s Buy In", joinPlayer.PlayerID), joinPlayer.PlayerID)
@@ -544,6 +545,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -566,7 +570,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	// do logic
-	ce.mu.Lock()
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
@@ -575,7 +578,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit
 	}
 	ce.refreshPlayerCompetitionRanks()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
@@ -596,6 +598,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 }
 
 func (ce *competitionEngine) PlayerRefund(playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate refund conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -618,13 +623,11 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 
 	// refund logic
-	ce.mu.Lock()
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
-- 
2.43.0


From d1303af5c4bcc9fdfac0ee180fe0d5620469d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 03/57] fix: a refund frees the place of the refunded player

---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index 5ee3257..01d0c20 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -628,6 +628,7 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
+	ce.refreshPlayerStatusStatistics()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
-- 
2.43.0


From 23963a3131cbff1dc81312ccebfb4833d6f0cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 04/57] fix: the entrant who completes the minimum of an MTT is
 seated too

---
 competition_engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 01d0c20..e5cec2a 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -527,11 +527,10 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
 			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
 		} else {
+			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
+			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			if ce.shouldActivateRegulator() {
 				ce.activateRegulator()
-			} else {
-				// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
-				ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			}
 		}
 	}
-- 
2.43.0


From c37af883dbddbf86b3ae73a06399c5fbe4db3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 05/57] fix: a cash top-up adds to the chips the player holds

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index e5cec2a..d65f261 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -480,7 +480,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = playerStatus
 		cp.ReBuyWaitingAt = UnsetValue
-		cp.Chips = joinPlayer.RedeemChips
+		cp.Chips += joinPlayer.RedeemChips
 		cp.ReBuyTimes++
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
-- 
2.43.0


From 4e31f635e2d328f3dde71e53c23a6d2c37db549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 06/57] fix: accumulate the showdown winning statistics

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 64265c5..d93cae0 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -856,6 +856,12 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 		if player.GameStatistics.IsFtCB {
 			cp.TotalFtCBTimes++
 		}
+		if player.GameStatistics.ShowdownWinningChance {
+			cp.TotalShowdownWinningChances++
+		}
+		if player.GameStatistics.IsShowdownWinning {
+			cp.TotalShowdownWinningTimes++
+		}
 	}
 
 	// 更新贏家統計數據
-- 
2.43.0


From 91254c95cf7982ec2fc0368d3d36e0759de9c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 07/57] fix: a competition starts at most once, never after its
 end, and settles once

---
 competition_engine.go          |  7 ++++---
 competition_engine_internal.go | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index d65f261..8a0c44c 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -70,6 +70,7 @@ type CompetitionEngine interface {
 
 type competitionEngine struct {
 	mu                                  sync.RWMutex
+	lifecycleMu                         sync.Mutex // guards isStarted & isSettled
 	competition                         *Competition
 	playerCaches                        sync.Map // key: <competitionID.playerID>, value: PlayerCache
 	gameSettledRecords                  sync.Map // key: <tableID.game_count>, value: IsSettled
@@ -86,6 +87,7 @@ type competitionEngine struct {
 	blind                               pokerblind.Blind
 	regulator                           regulator.Regulator
 	isStarted                           bool
+	isSettled                           bool
 	isRegulatorStarted                  bool
 	waitingPlayers                      []string
 
@@ -317,7 +319,7 @@ CloseCompetition 關閉賽事
   - 適用時機: 賽事出狀況需要臨時關閉賽事、未達開賽條件自動關閉賽事、正常結束賽事
 */
 func (ce *competitionEngine) CloseCompetition(endStatus CompetitionStateStatus) error {
-	if ce.isEndStatus() {
+	if !ce.markSettled() {
 		return nil
 	}
 
@@ -331,13 +333,12 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
-	if ce.isStarted {
+	if !ce.markStarted() {
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
 	// update start & end at
 	ce.competition.State.StartAt = time.Now().Unix()
-	ce.isStarted = true
 
 	if ce.competition.Meta.Mode == CompetitionMode_CT {
 		ce.competition.State.EndAt = ce.competition.State.StartAt + int64((time.Duration(ce.competition.Meta.MaxDuration) * time.Second).Seconds())
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index d93cae0..1edf626 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -166,6 +166,30 @@ func (ce *competitionEngine) addCompetitionTable(tableSetting TableSetting, blin
 	return table.ID, nil
 }
 
+// markStarted reports whether the caller is the one to start the competition
+func (ce *competitionEngine) markStarted() bool {
+	ce.lifecycleMu.Lock()
+	defer ce.lifecycleMu.Unlock()
+
+	if ce.isStarted || ce.isSettled {
+		return false
+	}
+	ce.isStarted = true
+	return true
+}
+
+// markSettled reports whether the caller is the one to settle the competition
+func (ce *competitionEngine) markSettled() bool {
+	ce.lifecycleMu.Lock()
+	defer ce.lifecycleMu.Unlock()
+
+	if ce.isSettled {
+		return false
+	}
+	ce.isSettled = true
+	return true
+}
+
 /*
 settleCompetition 賽事結算
 - 適用時機: 賽事結束
-- 
2.43.0


From ec81778b28938bec25ed0674526758086ef868c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 08/57] fix: refuse add-ons of players who cannot have one

---
 competition_engine.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 8a0c44c..754e386 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -555,6 +555,18 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionAddonRejected
 	}
 
+	// 只有賽事進行中、在該桌次上且有籌碼的玩家可以增購
+	validStatuses := []CompetitionStateStatus{
+		CompetitionStateStatus_DelayedBuyIn,
+		CompetitionStateStatus_StoppedBuyIn,
+	}
+	if !funk.Contains(validStatuses, ce.competition.State.Status) {
+		return ErrCompetitionAddonRejected
+	}
+	if player := ce.competition.State.Players[playerIdx]; player.Chips <= 0 || player.CurrentTableID != tableID || player.CurrentSeat == UnsetValue {
+		return ErrCompetitionAddonRejected
+	}
+
 	// validate Addon times
 	if ce.competition.Meta.AddonSetting.IsBreakOnly && !ce.competition.IsBreaking() {
 		return ErrCompetitionAddonRejected
@@ -570,7 +582,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	// do logic
-	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
 	cp.TotalRedeemChips += joinPlayer.RedeemChips
-- 
2.43.0


From 57a525e70c715e206cbad4f5838e0f34d3dcd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 09/57] fix: a CT or cash game with a start time starts at that
 time

---
 competition_engine.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 754e386..9474b1f 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -273,8 +273,20 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 				return
 			}
 
-			if ce.competition.State.Status == CompetitionStateStatus_Registering {
+			if ce.competition.State.Status != CompetitionStateStatus_Registering {
+				return
+			}
+
+			if ce.competition.Meta.Mode == CompetitionMode_MTT {
 				ce.StartCompetition()
+				return
+			}
+
+			// CT/Cash 人數足夠才開賽，否則等待玩家入座後再開賽
+			for tableIdx, table := range ce.competition.State.Tables {
+				if table.State.Status == pokertable.TableStateStatus_TableCreated {
+					ce.handleCompetitionTableCreated(*table, tableIdx)
+				}
 			}
 		}); err != nil {
 			return nil, err
-- 
2.43.0


From dc042b7a40f780d5089e487087d7be9563c64376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 10/57] fix: final rankings include players still waiting to
 re-buy

---
 competition_engine_internal.go | 11 +++++++++++
 rank.go                        | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 1edf626..14b2f9e 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -953,6 +953,17 @@ func (ce *competitionEngine) updatePlayerFinalRankings() {
 		CompetitionStateStatus_StoppedBuyIn,
 	}
 	if funk.Contains(settleStatuses, ce.competition.State.Status) {
+		// 賽事結束時沒有籌碼且尚未有名次的玩家，名次排在有籌碼的玩家之後
+		unrankedPlayerIDs := ce.GetSortedUnrankedPlayerIDs()
+		for idx, playerID := range unrankedPlayerIDs {
+			ce.competition.State.Rankings = append(ce.competition.State.Rankings, &CompetitionRank{
+				PlayerID:   playerID,
+				FinalChips: 0,
+			})
+			rank := ce.competition.PlayingPlayerCount() + (len(unrankedPlayerIDs) - idx)
+			ce.emitCompetitionStateFinalPlayerRankEvent(playerID, rank)
+		}
+
 		finalRankings := ce.GetParticipatedPlayerCompetitionRankingData(ce.competition.ID, ce.competition.State.Players)
 		// 名次由後面到前面 insert 至 Rankings
 		for i := len(finalRankings) - 1; i >= 0; i-- {
diff --git a/rank.go b/rank.go
index ce38b3e..704f943 100644
--- a/rank.go
+++ b/rank.go
@@ -143,6 +143,38 @@ func (ce *competitionEngine) GetSortedStopBuyInKnockoutPlayerRankings() []string
 	return playerIDs
 }
 
+/*
+GetSortedUnrankedPlayerIDs 賽事結束時沒有籌碼且尚未有名次的玩家 (越晚輸光籌碼者，排名越前面，排名後面者陣列 index 越小)
+  - @return SortedUnrankedPlayerIDs 排序過後的玩家 ID 陣列
+*/
+func (ce *competitionEngine) GetSortedUnrankedPlayerIDs() []string {
+	rankedPlayers := make(map[string]bool)
+	for _, ranking := range ce.competition.State.Rankings {
+		rankedPlayers[ranking.PlayerID] = true
+	}
+
+	unrankedPlayers := make([]CompetitionPlayer, 0)
+	for _, p := range ce.competition.State.Players {
+		if p.Chips <= 0 && !rankedPlayers[p.PlayerID] {
+			unrankedPlayers = append(unrankedPlayers, *p)
+		}
+	}
+
+	// 依淘汰時間早到晚排序，如果同時間則依加入時間晚到早排序
+	sort.SliceStable(unrankedPlayers, func(i int, j int) bool {
+		if unrankedPlayers[i].ReBuyWaitingAt != unrankedPlayers[j].ReBuyWaitingAt {
+			return unrankedPlayers[i].ReBuyWaitingAt < unrankedPlayers[j].ReBuyWaitingAt
+		}
+		return unrankedPlayers[i].JoinAt > unrankedPlayers[j].JoinAt
+	})
+
+	playerIDs := make([]string, 0)
+	for _, p := range unrankedPlayers {
+		playerIDs = append(playerIDs, p.PlayerID)
+	}
+	return playerIDs
+}
+
 /*
 GetParticipatedPlayerCompetitionRankingData 計算賽事所有沒有被淘汰玩家最終排名
 - Algorithm:
-- 
2.43.0


From 786cb65cfb2f671c3b0afe2e132748c35ec4d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 11/57] fix: a table resumes after the break it was paused for,
 and not before

---
 competition_engine_internal.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 14b2f9e..a3c4030 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -576,25 +576,27 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 		return
 	}
 
+	levelIndex := ce.competition.State.BlindState.CurrentLevelIndex
+
 	// check breakingPauseResumeStates
 	if _, exist := ce.breakingPauseResumeStates[tableID]; !exist {
 		ce.breakingPauseResumeStates[tableID] = make(map[int]bool)
 	}
-	if _, exist := ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex]; !exist {
-		ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = false
+	if _, exist := ce.breakingPauseResumeStates[tableID][levelIndex]; !exist {
+		ce.breakingPauseResumeStates[tableID][levelIndex] = false
 	} else {
 		fmt.Println("[DEBUG#handleBreaking] already handle breaking & start timer. TableID:", tableID)
 		return
 	}
 
 	// already resume table games from breaking
-	if ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] {
+	if ce.breakingPauseResumeStates[tableID][levelIndex] {
 		fmt.Println("[DEBUG#handleBreaking] 1 already resume table games from breaking. TableID:", tableID)
 		return
 	}
 
 	// reopen table game
-	endAt := ce.competition.State.BlindState.EndAts[ce.competition.State.BlindState.CurrentLevelIndex] + 1
+	endAt := ce.competition.State.BlindState.EndAts[levelIndex] + 1
 	if err := timebank.NewTimeBank().NewTaskWithDeadline(time.Unix(endAt, 0), func(isCancelled bool) {
 		if isCancelled {
 			fmt.Println("[DEBUG#handleBreaking] timer is canceled. TableID:", tableID)
@@ -606,7 +608,12 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
-		if ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] {
+		// 下一個等級仍是中場休息，由該等級的計時器處理
+		if ce.competition.IsBreaking() {
+			return
+		}
+
+		if ce.breakingPauseResumeStates[tableID][levelIndex] {
 			fmt.Println("[DEBUG#handleBreaking] 2 already resume table games from breaking. TableID:", tableID)
 			return
 		}
@@ -627,10 +634,10 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
-				ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = true
+				ce.breakingPauseResumeStates[tableID][levelIndex] = true
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-				ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = true
+				ce.breakingPauseResumeStates[tableID][levelIndex] = true
 				if len(participants) >= ce.competition.Meta.TableMinPlayerCount {
 					if err := ce.tableManagerBackend.StartTableGame(tableID); err != nil {
 						ce.emitErrorEvent("resume game from breaking & auto start game", "", err)
-- 
2.43.0


From 8dee44a491126f21ba2a046ed6888de36d3e7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:09 +0000
Subject: [PATCH 12/57] fix: a table started but without a hand before a break
 resumes after it

---
 competition_engine_internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index a3c4030..1173add 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -630,7 +630,7 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				return
 			}
 
-			if t.State.GameCount > 0 {
+			if t.State.GameCount > 0 || t.State.StartAt != pokertable.UnsetValue {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
-- 
2.43.0


From ce308e1de923314040bd3cab8dc81ee23c550ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 13/57] fix: a cash player who leaves is paid once, also
 between hands and after busting

---
 competition_engine.go          | 13 +++---
 competition_engine_internal.go | 77 +++++++++++++++++++++++++++-------
 2 files changed, 69 insertions(+), 21 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 9474b1f..fa7e77b 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -71,8 +71,10 @@ type CompetitionEngine interface {
 type competitionEngine struct {
 	mu                                  sync.RWMutex
 	lifecycleMu                         sync.Mutex // guards isStarted & isSettled
+	playersMu                           sync.Mutex // guards the entries of competition.State.Players
 	competition                         *Competition
 	playerCaches                        sync.Map // key: <competitionID.playerID>, value: PlayerCache
+	cashOutPlayers                      sync.Map // key: playerID, value: true (players being cashed out)
 	gameSettledRecords                  sync.Map // key: <tableID.game_count>, value: IsSettled
 	tableOptions                        *pokertable.TableEngineOptions
 	tableManagerBackend                 TableManagerBackend
@@ -481,7 +483,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	// do logic
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
+		ce.playersMu.Lock()
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
+		ce.playersMu.Unlock()
 		if ce.competition.IsModeCTorMTT() {
 			ce.competition.State.Statistic.TotalBuyInCount += joinPlayer.Unit
 		}
@@ -677,6 +681,9 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 }
 
 func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate leave conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -704,11 +711,7 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	}
 
 	if competitionNotStart || pauseCompetition {
-		leavePlayerIndexes := map[string]int{
-			playerID: playerIdx,
-		}
-		leavePlayerIDs := []string{playerID}
-		ce.handleCashOut(tableID, leavePlayerIndexes, leavePlayerIDs)
+		ce.handleCashOut(tableID, []string{playerID})
 	}
 
 	return nil
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 1173add..04068f1 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -117,8 +117,22 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tableIdx int) {
 	shouldReOpenGame := false
 	readyPlayersCount := 0
-	aliveParticipants := ce.generateAliveParticipants(table.State.PlayerStates)
-	for _, p := range table.State.PlayerStates {
+	playerStates := table.State.PlayerStates
+
+	// 現金桌: 兩手之間要離開的玩家，桌次暫停後不會再有結算，直接離桌結算
+	if ce.competition.Meta.Mode == CompetitionMode_Cash {
+		if leavePlayerIDs := ce.handleCashTableSettlement(table); len(leavePlayerIDs) > 0 {
+			playerStates = make([]*pokertable.TablePlayerState, 0)
+			for _, p := range table.State.PlayerStates {
+				if !funk.Contains(leavePlayerIDs, p.PlayerID) {
+					playerStates = append(playerStates, p)
+				}
+			}
+		}
+	}
+
+	aliveParticipants := ce.generateAliveParticipants(playerStates)
+	for _, p := range playerStates {
 		if p.IsIn && p.Bankroll > 0 {
 			readyPlayersCount++
 		}
@@ -220,6 +234,9 @@ func (ce *competitionEngine) deleteTable(tableIdx int) {
 }
 
 func (ce *competitionEngine) deletePlayer(playerIdx int) {
+	ce.playersMu.Lock()
+	defer ce.playersMu.Unlock()
+
 	ce.competition.State.Players = append(ce.competition.State.Players[:playerIdx], ce.competition.State.Players[playerIdx+1:]...)
 }
 
@@ -311,20 +328,20 @@ func (ce *competitionEngine) handleCTTableSettlement(knockoutPlayerIDs []string,
 	}
 }
 
-func (ce *competitionEngine) handleCashTableSettlement(table pokertable.Table) {
+func (ce *competitionEngine) handleCashTableSettlement(table pokertable.Table) []string {
 	// Cash Out 處理
 	leavePlayerIDs := make([]string, 0)
-	leavePlayerIndexes := make(map[string]int)
-	for idx, cp := range ce.competition.State.Players {
+	for _, cp := range ce.competition.State.Players {
 		if cp.Status == CompetitionPlayerStatus_CashLeaving {
 			leavePlayerIDs = append(leavePlayerIDs, cp.PlayerID)
-			leavePlayerIndexes[cp.PlayerID] = idx
 		}
 	}
 
 	if len(leavePlayerIDs) > 0 {
-		ce.handleCashOut(table.ID, leavePlayerIndexes, leavePlayerIDs)
+		ce.handleCashOut(table.ID, leavePlayerIDs)
 	}
+
+	return leavePlayerIDs
 }
 
 func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bool {
@@ -544,7 +561,20 @@ func (ce *competitionEngine) handleMTTTableSettlementNextStep(table pokertable.T
 	)
 }
 
-func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes map[string]int, leavePlayerIDs []string) {
+func (ce *competitionEngine) handleCashOut(tableID string, playerIDs []string) {
+	// a player is cashed out once, even when the leave triggers another table update
+	leavePlayerIDs := make([]string, 0)
+	for _, playerID := range playerIDs {
+		if _, isLeaving := ce.cashOutPlayers.LoadOrStore(playerID, true); isLeaving {
+			continue
+		}
+		defer ce.cashOutPlayers.Delete(playerID)
+		leavePlayerIDs = append(leavePlayerIDs, playerID)
+	}
+	if len(leavePlayerIDs) == 0 {
+		return
+	}
+
 	// TableEngine Player Leave
 	if err := ce.tableManagerBackend.PlayersLeave(tableID, leavePlayerIDs); err != nil {
 		ce.emitErrorEvent("handleCashOut -> PlayersLeave", strings.Join(leavePlayerIDs, ","), err)
@@ -552,19 +582,25 @@ func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes ma
 
 	// Cash Out
 	for _, leavePlayerID := range leavePlayerIDs {
-		if playerIdx, exist := leavePlayerIndexes[leavePlayerID]; exist {
-			ce.onCompetitionPlayerCashOut(ce.competition.ID, ce.competition.State.Players[playerIdx])
+		playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
+			return player.PlayerID == leavePlayerID
+		})
+		if playerIdx == UnsetValue {
+			continue
 		}
+		ce.onCompetitionPlayerCashOut(ce.competition.ID, ce.competition.State.Players[playerIdx])
 	}
 
-	// keep players that are cashing out
+	// keep players that are not cashing out
+	ce.playersMu.Lock()
 	newPlayers := make([]*CompetitionPlayer, 0)
 	for _, cp := range ce.competition.State.Players {
-		if _, exist := leavePlayerIndexes[cp.PlayerID]; !exist {
+		if !funk.Contains(leavePlayerIDs, cp.PlayerID) {
 			newPlayers = append(newPlayers, cp)
 		}
 	}
 	ce.competition.State.Players = newPlayers
+	ce.playersMu.Unlock()
 
 	// Emit Event
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
@@ -708,6 +744,11 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 		}
 
 		cp := ce.competition.State.Players[rebuyPlayerIdx]
+		if cp.Status == CompetitionPlayerStatus_CashLeaving {
+			// 要離開的現金桌玩家，這手結算就會離桌
+			continue
+		}
+
 		if !cp.IsReBuying {
 			if cp.ReBuyTimes < ce.competition.Meta.ReBuySetting.MaxTime {
 				cp.Status = CompetitionPlayerStatus_ReBuyWaiting
@@ -744,8 +785,14 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 				return
 			}
 
+			ce.mu.Lock()
+			defer ce.mu.Unlock()
+
+			if ce.isEndStatus() {
+				return
+			}
+
 			leavePlayerIDs := make([]string, 0)
-			leavePlayerIndexes := make(map[string]int)
 			for _, reBuyPlayerID := range reBuyPlayerIDs {
 				reBuyPlayerIdx := ce.competition.FindPlayerIdx(func(competitionPlayer *CompetitionPlayer) bool {
 					return competitionPlayer.PlayerID == reBuyPlayerID
@@ -770,7 +817,6 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 					// 已經淘汰 (status = knockout)，超過 ReBuy 時間或是已經棄賽 (current_seat = -1) 的玩家不處理
 					if cp.Status == CompetitionPlayerStatus_ReBuyWaiting && cp.IsReBuying {
 						leavePlayerIDs = append(leavePlayerIDs, reBuyPlayerID)
-						leavePlayerIndexes[reBuyPlayerID] = reBuyPlayerIdx
 						cp.Status = CompetitionPlayerStatus_ReBuyWaiting
 						cp.IsReBuying = false
 						cp.ReBuyEndAt = UnsetValue
@@ -779,7 +825,6 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 					}
 				case CompetitionMode_Cash:
 					leavePlayerIDs = append(leavePlayerIDs, reBuyPlayerID)
-					leavePlayerIndexes[reBuyPlayerID] = reBuyPlayerIdx
 				}
 			}
 
@@ -792,7 +837,7 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 						ce.emitErrorEvent("Re Buy Leave Players -> Table PlayersLeave", strings.Join(leavePlayerIDs, ","), err)
 					}
 				case CompetitionMode_Cash:
-					ce.handleCashOut(table.ID, leavePlayerIndexes, leavePlayerIDs)
+					ce.handleCashOut(table.ID, leavePlayerIDs)
 				}
 			}
 		}); err != nil {
-- 
2.43.0


From 21a118a98235e3789b80dd736e0445a22ec14f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 14/57] fix: a busted cash player who asked to leave keeps a
 rank

---
 competition_engine_internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 04068f1..cd03049 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1333,7 +1333,7 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 		if p.Chips > 0 {
 			playingPlayers = append(playingPlayers, *p)
 		} else {
-			if p.Status == CompetitionPlayerStatus_ReBuyWaiting {
+			if p.Status == CompetitionPlayerStatus_ReBuyWaiting || p.Status == CompetitionPlayerStatus_CashLeaving {
 				reBuyWaitingPlayers = append(reBuyWaitingPlayers, *p)
 			}
 		}
-- 
2.43.0


From 1a2b07bd7153335a6d69549c39229090259c2c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 15/57] fix: players waiting when buy-in stops are eliminated
 before later busts

---
 competition_engine_internal.go | 53 ++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cd03049..a1dfacf 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1118,18 +1118,15 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 		}
 
 		ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
-		// fmt.Println("[DEBUG#initBlind] BlindState.CurrentLevelIndex:", ce.competition.State.BlindState.CurrentLevelIndex)
-		for _, table := range ce.competition.State.Tables {
-			ce.updateTableBlind(table.ID)
-			ce.handleBreaking(table.ID)
-		}
-
 		ce.emitCompetitionStateEvent(CompetitionStateEvent_BlindUpdated) // change CurrentLevelIndex
 		ce.emitEvent("Blind CurrentLevelIndex Update", "")
 
-		// 更新賽事狀態: 停止買入
+		// 更新賽事狀態: 停止買入 (先於桌次更新，等待補碼的玩家比之後才淘汰的玩家早出局)
+		isStoppedBuyInNow := false
 		if ce.competition.State.BlindState.IsStopBuyIn() {
 			if ce.competition.State.Status != CompetitionStateStatus_StoppedBuyIn {
+				isStoppedBuyInNow = true
+
 				// 處理晉級
 				ce.initAdvancement()
 
@@ -1143,6 +1140,7 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 				// 淘汰沒資格玩家
 				playerIdxMap := ce.competition.GetPlayerIndexMap()
 				knockoutPlayerRankings := ce.GetSortedStopBuyInKnockoutPlayerRankings()
+				leavePlayerIDs := make([]string, 0)
 				for idx, knockoutPlayerID := range knockoutPlayerRankings {
 					playerIdx, exist := playerIdxMap[knockoutPlayerID]
 					if !exist {
@@ -1165,10 +1163,8 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 					ce.emitPlayerEvent("Stopped BuyIn Knockout Players", cp)
 
 					// 玩家離座 (CT only), 因為 MTT 在結算沒籌碼時就已經離開該桌次了
-					if isCTReBuying && len(ce.competition.State.Tables) > 0 {
-						if err := ce.tableManagerBackend.PlayersLeave(ce.competition.State.Tables[0].ID, []string{knockoutPlayerID}); err != nil {
-							ce.emitErrorEvent("Stopped BuyIn Knockout Players -> PlayersLeave", knockoutPlayerID, err)
-						}
+					if isCTReBuying {
+						leavePlayerIDs = append(leavePlayerIDs, knockoutPlayerID)
 					}
 
 					// 更新賽事排名
@@ -1180,24 +1176,37 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 					ce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)
 				}
 
+				if len(leavePlayerIDs) > 0 && len(ce.competition.State.Tables) > 0 {
+					if err := ce.tableManagerBackend.PlayersLeave(ce.competition.State.Tables[0].ID, leavePlayerIDs); err != nil {
+						ce.emitErrorEvent("Stopped BuyIn Knockout Players -> PlayersLeave", strings.Join(leavePlayerIDs, ","), err)
+					}
+				}
+
 				// 事件通知
 				ce.refreshPlayerStatusStatistics()
 				ce.refreshPlayerCompetitionRanks()
 				ce.emitEvent("Stopped BuyIn Knockout Players", "")
 				ce.emitCompetitionStateEvent(CompetitionStateEvent_KnockoutPlayers)
 				ce.emitCompetitionStateEvent(CompetitionStateEvent_BlindUpdated) // change Status
+			}
+		}
 
-				// 處理結束賽事
-				tableEndConditions := len(ce.competition.State.Tables) == 0 || (len(ce.competition.State.Tables) == 1 && len(ce.competition.State.Tables[0].AlivePlayers()) < 2)
-				shouldCloseCompetition := !ce.isEndStatus() && tableEndConditions
-				autoCloseModes := []CompetitionMode{
-					CompetitionMode_CT,
-					CompetitionMode_MTT,
-				}
-				if funk.Contains(autoCloseModes, ce.competition.Meta.Mode) && shouldCloseCompetition {
-					if err := ce.CloseCompetition(CompetitionStateStatus_End); err != nil {
-						ce.emitErrorEvent("Stopped BuyIn auto close -> CloseCompetition", "", err)
-					}
+		for _, table := range ce.competition.State.Tables {
+			ce.updateTableBlind(table.ID)
+			ce.handleBreaking(table.ID)
+		}
+
+		// 處理結束賽事
+		if isStoppedBuyInNow {
+			tableEndConditions := len(ce.competition.State.Tables) == 0 || (len(ce.competition.State.Tables) == 1 && len(ce.competition.State.Tables[0].AlivePlayers()) < 2)
+			shouldCloseCompetition := !ce.isEndStatus() && tableEndConditions
+			autoCloseModes := []CompetitionMode{
+				CompetitionMode_CT,
+				CompetitionMode_MTT,
+			}
+			if funk.Contains(autoCloseModes, ce.competition.Meta.Mode) && shouldCloseCompetition {
+				if err := ce.CloseCompetition(CompetitionStateStatus_End); err != nil {
+					ce.emitErrorEvent("Stopped BuyIn auto close -> CloseCompetition", "", err)
 				}
 			}
 		}
-- 
2.43.0


From e9b145490a74cf54eca19f7b28f60fe4566d0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 16/57] fix: a competition that opens past its buy-in levels
 starts as stopped

---
 competition_engine_internal.go | 7 +++----
 regulator.go                   | 6 ++++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index a1dfacf..f0a2313 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1226,14 +1226,13 @@ func (ce *competitionEngine) activateBlind() error {
 		return err
 	}
 
-	if ce.competition.Meta.Blind.FinalBuyInLevelIndex == UnsetValue || ce.competition.Meta.Blind.FinalBuyInLevelIndex < NoStopBuyInIndex {
+	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
+	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
+	if ce.competition.State.BlindState.IsStopBuyIn() || ce.competition.Meta.Blind.FinalBuyInLevelIndex < NoStopBuyInIndex {
 		ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
 	} else {
 		ce.competition.State.Status = CompetitionStateStatus_DelayedBuyIn
 	}
-
-	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
-	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
 	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
 
 	ce.emitEvent("ActivateBlind", "")
diff --git a/regulator.go b/regulator.go
index 34e1e79..b0a4b7c 100644
--- a/regulator.go
+++ b/regulator.go
@@ -118,6 +118,12 @@ func (ce *competitionEngine) activateRegulator() {
 	// 啟動拆併桌程式
 	ce.regulator.SetStatus(regulator.CompetitionStatus_Normal)
 	ce.isRegulatorStarted = true
+
+	// 一開賽就停止買入，不會再經過盲注升級的停止買入處理
+	if ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn {
+		ce.initAdvancement()
+		ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
+	}
 }
 
 func (ce *competitionEngine) regulatorAddPlayers(playerIDs []string) error {
-- 
2.43.0


From a02be9d9f5f1cfa68484b8ba3e262aac5e75bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 17/57] fix: closing the second to last table does not end the
 MTT

---
 competition_engine_internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index f0a2313..195d621 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -399,7 +399,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 		ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
 
 		// 判斷是否要關閉賽事
-		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1
+		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1 && ce.competition.State.Tables[0].ID == table.ID
 	}
 
 	return shouldCloseCompetition
-- 
2.43.0


From c40281862ea585d313cd08328ab68d34fe31f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 18/57] fix: advancement counts every paused table once

---
 competition_engine_internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 195d621..2a5c637 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -380,7 +380,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 		if shouldAdvancePauseTableGame {
 			if err := ce.tableManagerBackend.PauseTable(table.ID); err != nil {
 				ce.emitErrorEvent(fmt.Sprintf("[%s][%d] Advance Pause Table", table.ID, table.State.GameCount), "", err)
-			} else {
+			} else if !funk.Contains(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID) {
 				ce.competition.State.AdvanceState.UpdatedTables++
 				ce.competition.State.AdvanceState.UpdatedTableIDs = append(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID)
 
-- 
2.43.0


From 2e955a948766fdb92963dfa2192c3ffd484d2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 19/57] fix: a CT or cash table out of time ends the
 competition when no further hand opens

---
 competition_engine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index fa7e77b..b15310c 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -787,7 +787,15 @@ func (ce *competitionEngine) AutoGameOpenEnd(tableID string) error {
 	}
 
 	// CT 停止買入且賽事沒有繼續自動開桌，則自動結束賽事
-	if ce.competition.State.Tables[tableIdx].Meta.Mode == string(CompetitionMode_CT) && ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn {
+	table := ce.competition.State.Tables[tableIdx]
+	shouldClose := table.Meta.Mode == string(CompetitionMode_CT) && ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn
+
+	// 桌次時間已到而不再開下一手，結算時若還沒到結束時間，在這裡結束賽事
+	if !ce.isEndStatus() {
+		shouldClose = shouldClose || ce.shouldCloseCTCompetition(table.State.StartAt, len(table.AlivePlayers())) || ce.shouldCloseCashCompetition(table.State.StartAt)
+	}
+
+	if shouldClose {
 		_ = ce.CloseCompetition(CompetitionStateStatus_End)
 	}
 
-- 
2.43.0


From 1d49185d25ae8334ef63a5af020cf8d7c53dcb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 20/57] fix: a settlement leaves players with a re-buy under
 way alone

---
 competition_engine_internal.go | 10 +++++++++-
 rank.go                        |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 2a5c637..01410ff 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -749,6 +749,11 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 			continue
 		}
 
+		if cp.Chips > 0 {
+			// 補碼中的玩家，桌次尚未更新籌碼
+			continue
+		}
+
 		if !cp.IsReBuying {
 			if cp.ReBuyTimes < ce.competition.Meta.ReBuySetting.MaxTime {
 				cp.Status = CompetitionPlayerStatus_ReBuyWaiting
@@ -993,7 +998,10 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Rank = rankData.Rank
 		cp.TableRank = rankData.Rank
-		cp.Chips = rankData.Chips
+		if rankData.Rank > 0 {
+			// 沒參賽的玩家籌碼不會因該手改變，可能正在補碼中
+			cp.Chips = rankData.Chips
+		}
 		ce.emitPlayerEvent("table-settlement", cp)
 	}
 }
diff --git a/rank.go b/rank.go
index 704f943..12a2c97 100644
--- a/rank.go
+++ b/rank.go
@@ -90,6 +90,11 @@ func (ce *competitionEngine) GetSortedTableSettlementKnockoutPlayerRankings(tabl
 			player := ce.competition.State.Players[playerIdx]
 			allowToReBuy = player.ReBuyTimes < ce.competition.Meta.ReBuySetting.MaxTime
 			isAlreadyKnockout = player.Status == CompetitionPlayerStatus_Knockout
+
+			// 補碼中的玩家，桌次尚未更新籌碼
+			if player.Chips > 0 {
+				continue
+			}
 		}
 		if !ce.competition.State.BlindState.IsStopBuyIn() && allowToReBuy {
 			continue
-- 
2.43.0


From 2601bd8376a6be24aedfdbfde6539fb7ff4d4a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 21/57] fix: an MTT with one player left ends before its
 advancement rule is met

---
 competition_engine_internal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 01410ff..4125822 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -397,8 +397,10 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 		// 無晉級計算
 		// 拆併桌更新桌次狀態
 		ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
+	}
 
-		// 判斷是否要關閉賽事
+	// 判斷是否要關閉賽事
+	if !shouldCloseCompetition {
 		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1 && ce.competition.State.Tables[0].ID == table.ID
 	}
 
-- 
2.43.0


From e0629aee1d96bfa53c0dcdd64ad35d11b3d229cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 22/57] fix: a CT paused past its end time ends

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 4125822..5b45723 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -149,6 +149,12 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 		shouldReOpenGame = readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
 	}
 
+	// CT 暫停時已達到結束時間，不會再有結算，直接結束賽事
+	if ce.competition.Meta.Mode == CompetitionMode_CT && ce.competition.State.EndAt > 0 && time.Now().Unix() >= ce.competition.State.EndAt {
+		ce.CloseCompetition(CompetitionStateStatus_End)
+		return
+	}
+
 	// re-open game
 	if shouldReOpenGame && !ce.competition.IsBreaking() {
 		nextGameCount := table.State.GameCount + 1
-- 
2.43.0


From fa38c5b0fdb54366b1cf612a5a65362587435aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 23/57] fix: a cash player is not paid out after the
 competition has ended

---
 competition_engine.go          | 4 ++++
 competition_engine_internal.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index b15310c..582090f 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -696,6 +696,10 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 		return ErrCompetitionLeaveRejected
 	}
 
+	if ce.isEndStatus() {
+		return ErrCompetitionLeaveRejected
+	}
+
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 5b45723..8c9e861 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -588,6 +588,11 @@ func (ce *competitionEngine) handleCashOut(tableID string, playerIDs []string) {
 		ce.emitErrorEvent("handleCashOut -> PlayersLeave", strings.Join(leavePlayerIDs, ","), err)
 	}
 
+	// the competition has ended meanwhile, its result is final
+	if ce.isEndStatus() {
+		return
+	}
+
 	// Cash Out
 	for _, leavePlayerID := range leavePlayerIDs {
 		playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
-- 
2.43.0


From cfb371e43538751f6a42250ad68a49a0f73aba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 24/57] fix: a paused CT goes on when its re-bought player sits
 down after buy-in stopped

---
 competition_engine_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 8c9e861..a5559eb 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -140,7 +140,8 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 
 	switch ce.competition.Meta.Mode {
 	case CompetitionMode_CT:
-		shouldReOpenGame = ce.competition.State.Status == CompetitionStateStatus_DelayedBuyIn && readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
+		isRunning := ce.competition.State.Status == CompetitionStateStatus_DelayedBuyIn || ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn
+		shouldReOpenGame = isRunning && readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
 
 	case CompetitionMode_Cash:
 		shouldReOpenGame = readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
-- 
2.43.0


From 7ad939ce908c4f4e5afc1cfb556073e58785c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 25/57] fix: a table closing while it resumes from a break no
 longer panics

---
 competition_engine.go          |  1 +
 competition_engine_internal.go | 56 +++++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 582090f..64dab55 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -86,6 +86,7 @@ type competitionEngine struct {
 	onAdvancePlayerCountUpdated         func(competitionID string, totalBuyInCount int) int
 	onCompetitionPlayerCashOut          func(competitionID string, competitionPlayer *CompetitionPlayer)
 	breakingPauseResumeStates           map[string]map[int]bool // key: tableID, value: (k,v): (breaking blind level index, is resume from pause)
+	breakingMu                          sync.Mutex              // guards breakingPauseResumeStates
 	blind                               pokerblind.Blind
 	regulator                           regulator.Regulator
 	isStarted                           bool
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index a5559eb..2f2356a 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -253,7 +253,9 @@ closeCompetitionTable 桌次關閉
 */
 func (ce *competitionEngine) closeCompetitionTable(table pokertable.Table, tableIdx int) {
 	// clean data
+	ce.breakingMu.Lock()
 	delete(ce.breakingPauseResumeStates, table.ID)
+	ce.breakingMu.Unlock()
 
 	// competition close table
 	ce.deleteTable(tableIdx)
@@ -629,22 +631,11 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 	levelIndex := ce.competition.State.BlindState.CurrentLevelIndex
 
 	// check breakingPauseResumeStates
-	if _, exist := ce.breakingPauseResumeStates[tableID]; !exist {
-		ce.breakingPauseResumeStates[tableID] = make(map[int]bool)
-	}
-	if _, exist := ce.breakingPauseResumeStates[tableID][levelIndex]; !exist {
-		ce.breakingPauseResumeStates[tableID][levelIndex] = false
-	} else {
+	if !ce.markBreaking(tableID, levelIndex) {
 		fmt.Println("[DEBUG#handleBreaking] already handle breaking & start timer. TableID:", tableID)
 		return
 	}
 
-	// already resume table games from breaking
-	if ce.breakingPauseResumeStates[tableID][levelIndex] {
-		fmt.Println("[DEBUG#handleBreaking] 1 already resume table games from breaking. TableID:", tableID)
-		return
-	}
-
 	// reopen table game
 	endAt := ce.competition.State.BlindState.EndAts[levelIndex] + 1
 	if err := timebank.NewTimeBank().NewTaskWithDeadline(time.Unix(endAt, 0), func(isCancelled bool) {
@@ -663,11 +654,6 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
-		if ce.breakingPauseResumeStates[tableID][levelIndex] {
-			fmt.Println("[DEBUG#handleBreaking] 2 already resume table games from breaking. TableID:", tableID)
-			return
-		}
-
 		tableIdx := ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
 			return t.ID == tableID
 		})
@@ -683,12 +669,13 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			if t.State.GameCount > 0 || t.State.StartAt != pokertable.UnsetValue {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
-				ce.breakingPauseResumeStates[tableID][levelIndex] = true
+				if ce.markBreakingResumed(tableID, levelIndex) {
+					ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
+				}
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-				ce.breakingPauseResumeStates[tableID][levelIndex] = true
-				if len(participants) >= ce.competition.Meta.TableMinPlayerCount {
+				isResumed := !ce.markBreakingResumed(tableID, levelIndex)
+				if !isResumed && len(participants) >= ce.competition.Meta.TableMinPlayerCount {
 					if err := ce.tableManagerBackend.StartTableGame(tableID); err != nil {
 						ce.emitErrorEvent("resume game from breaking & auto start game", "", err)
 					}
@@ -703,6 +690,33 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 	}
 }
 
+// markBreaking 記錄該桌於該中場休息等級等待重啟，若已經記錄過則回傳 false
+func (ce *competitionEngine) markBreaking(tableID string, levelIndex int) bool {
+	ce.breakingMu.Lock()
+	defer ce.breakingMu.Unlock()
+
+	if _, exist := ce.breakingPauseResumeStates[tableID]; !exist {
+		ce.breakingPauseResumeStates[tableID] = make(map[int]bool)
+	}
+	if _, exist := ce.breakingPauseResumeStates[tableID][levelIndex]; exist {
+		return false
+	}
+	ce.breakingPauseResumeStates[tableID][levelIndex] = false
+	return true
+}
+
+// markBreakingResumed 記錄該桌已從該中場休息等級重啟，若已經重啟或桌次已關閉則回傳 false
+func (ce *competitionEngine) markBreakingResumed(tableID string, levelIndex int) bool {
+	ce.breakingMu.Lock()
+	defer ce.breakingMu.Unlock()
+
+	if resumed, exist := ce.breakingPauseResumeStates[tableID][levelIndex]; !exist || resumed {
+		return false
+	}
+	ce.breakingPauseResumeStates[tableID][levelIndex] = true
+	return true
+}
+
 func (ce *competitionEngine) handleTableKnockoutPlayers(table pokertable.Table) []string {
 	playerIdxMap := ce.competition.GetPlayerIndexMap()
 
-- 
2.43.0


From dae5821d1248dc0d749f93e2c97ec24f0347adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:26 +0000
Subject: [PATCH 26/57] fix: a table being created while the blinds go up gets
 the new blinds

---
 competition_engine_internal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 2f2356a..a4c2541 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -178,6 +178,13 @@ func (ce *competitionEngine) addCompetitionTable(tableSetting TableSetting, blin
 
 	// add table
 	ce.competition.State.Tables = append(ce.competition.State.Tables, table)
+
+	// 建桌期間盲注升級，補更新該桌盲注
+	if ce.blind.IsStarted() && ce.competition.CurrentBlindLevel().Level != blind.Level {
+		ce.updateTableBlind(table.ID)
+		ce.handleBreaking(table.ID)
+	}
+
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)
 	ce.emitEvent("[addCompetitionTable]", "")
 
-- 
2.43.0


From ad7fbaddf325032aadf09a99500e3523341081d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:07 +0000
Subject: [PATCH 27/57] fix: the first hand is not set up after the competition
 has ended

---
 competition_engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 64dab55..4eb00ab 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -851,6 +851,10 @@ func (ce *competitionEngine) UpdateTable(table *pokertable.Table) {
 }
 
 func (ce *competitionEngine) ReadyFirstTableGame(tableID string, gameCount int, players []*pokertable.TablePlayerState) error {
+	if ce.isEndStatus() {
+		return nil
+	}
+
 	participants := ce.generateAliveParticipants(players)
 	return ce.tableManagerBackend.SetUpTableGame(tableID, gameCount, participants)
 }
-- 
2.43.0


From 462ce09b817662e98b97f9d1106af6b3e3ac78ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:59 +0000
Subject: [PATCH 28/57] fix: the first hand of a table is not set up during a
 break

---
 competition_engine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 4eb00ab..4c883f9 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -855,6 +855,12 @@ func (ce *competitionEngine) ReadyFirstTableGame(tableID string, gameCount int,
 		return nil
 	}
 
+	// 中場休息中不開局，休息結束後再重啟
+	if ce.competition.IsBreaking() {
+		ce.handleBreaking(tableID)
+		return nil
+	}
+
 	participants := ce.generateAliveParticipants(players)
 	return ce.tableManagerBackend.SetUpTableGame(tableID, gameCount, participants)
 }
-- 
2.43.0


From c1cc52ff10d5fd8937ab5e771fb7fdd5aadd2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 29/57] fix: a player whose re-buy window has passed is not
 given another one

---
 competition_engine_internal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index a4c2541..cc4c20c 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -789,6 +789,11 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 			continue
 		}
 
+		if cp.Status == CompetitionPlayerStatus_ReBuyWaiting {
+			// 已經在等待補碼、或補碼時間已過正要離桌的玩家
+			continue
+		}
+
 		if !cp.IsReBuying {
 			if cp.ReBuyTimes < ce.competition.Meta.ReBuySetting.MaxTime {
 				cp.Status = CompetitionPlayerStatus_ReBuyWaiting
-- 
2.43.0


From e9fd140c30dbf1b6020c4d728cc52565f7958a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 30/57] fix: a table short of seated players after a break
 waits for them

---
 competition_engine_internal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cc4c20c..cac4ea9 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -677,6 +677,13 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				if ce.markBreakingResumed(tableID, levelIndex) {
+					if len(participants) < t.Meta.TableMinPlayerCount && t.State.Status == pokertable.TableStateStatus_TableGameStandby {
+						// 有籌碼但未入座的玩家不能開局，先暫停桌次，待玩家入座後重新開局
+						if err := ce.tableManagerBackend.PauseTable(tableID); err != nil {
+							ce.emitErrorEvent("resume game from breaking & pause table", "", err)
+						}
+						return
+					}
 					ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
 				}
 			} else if t.State.GameCount == 0 {
-- 
2.43.0


From a2784decc18d78622fd135436cb10bf3b4235587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:52 +0000
Subject: [PATCH 31/57] fix: overlapping settlements no longer leave outdated
 live ranks

---
 competition_engine.go          | 1 +
 competition_engine_internal.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 4c883f9..da735e4 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -72,6 +72,7 @@ type competitionEngine struct {
 	mu                                  sync.RWMutex
 	lifecycleMu                         sync.Mutex // guards isStarted & isSettled
 	playersMu                           sync.Mutex // guards the entries of competition.State.Players
+	ranksMu                             sync.Mutex // guards the ranks written by refreshPlayerCompetitionRanks
 	competition                         *Competition
 	playerCaches                        sync.Map // key: <competitionID.playerID>, value: PlayerCache
 	cashOutPlayers                      sync.Map // key: playerID, value: true (players being cashed out)
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cac4ea9..6bd6c91 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1387,6 +1387,9 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 		return
 	}
 
+	// 各桌可能同時結算，計算與更新排名需一次完成，避免舊排名覆蓋新排名
+	ce.ranksMu.Lock()
+
 	competitionPlayerIdxMap := make(map[string]int) // key player id, value: competition player index
 
 	// 分類玩家
@@ -1452,6 +1455,8 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 		}
 	}
 
+	ce.ranksMu.Unlock()
+
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_PlayerRankUpdated)
 }
 
-- 
2.43.0


From 04bc1b400bb57093c155a804eeae5f4848c0f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 32/57] fix: an outdated table report does not replace a newer
 one

---
 competition_engine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index da735e4..9bf0bae 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -835,7 +835,15 @@ func (ce *competitionEngine) UpdateTable(table *pokertable.Table) {
 	} else {
 		cloneTable = *table
 	}
-	ce.competition.State.Tables[tableIdx] = &cloneTable
+
+	// 較晚送達的舊桌次更新不覆蓋新狀態，只處理尚未結算的手牌
+	isOutdated := cloneTable.UpdateSerial < ce.competition.State.Tables[tableIdx].UpdateSerial
+	if isOutdated && cloneTable.State.Status != pokertable.TableStateStatus_TableGameSettled {
+		return
+	}
+	if !isOutdated {
+		ce.competition.State.Tables[tableIdx] = &cloneTable
+	}
 
 	// 處理因 table status 產生的變化
 	tableStatusHandlerMap := map[pokertable.TableStateStatus]func(pokertable.Table, int){
-- 
2.43.0


From c3e339e99c75c6eb7d558c0883019cd7521c8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 33/57] fix: a table short of seated players after a break
 waits for them whatever it last reported

---
 competition_engine_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 6bd6c91..8fdb58f 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -677,7 +677,8 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				if ce.markBreakingResumed(tableID, levelIndex) {
-					if len(participants) < t.Meta.TableMinPlayerCount && t.State.Status == pokertable.TableStateStatus_TableGameStandby {
+					isPlaying := t.State.Status == pokertable.TableStateStatus_TableGameOpened || t.State.Status == pokertable.TableStateStatus_TableGamePlaying
+					if len(participants) < t.Meta.TableMinPlayerCount && !isPlaying {
 						// 有籌碼但未入座的玩家不能開局，先暫停桌次，待玩家入座後重新開局
 						if err := ce.tableManagerBackend.PauseTable(tableID); err != nil {
 							ce.emitErrorEvent("resume game from breaking & pause table", "", err)
-- 
2.43.0


From 72a668ed877881a7390d87ed197222888f916355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:45 +0000
Subject: [PATCH 34/57] fix: removing a table does not shift the tables a blind
 update is going through

---
 competition_engine_internal.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 8fdb58f..782b9de 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -244,14 +244,22 @@ func (ce *competitionEngine) settleCompetition(endCompetitionStatus CompetitionS
 }
 
 func (ce *competitionEngine) deleteTable(tableIdx int) {
-	ce.competition.State.Tables = append(ce.competition.State.Tables[:tableIdx], ce.competition.State.Tables[tableIdx+1:]...)
+	// 不就地搬移: 可能有其他流程 (e.g. 更新盲注) 正在走訪原本的桌次
+	tables := make([]*pokertable.Table, 0, len(ce.competition.State.Tables))
+	tables = append(tables, ce.competition.State.Tables[:tableIdx]...)
+	tables = append(tables, ce.competition.State.Tables[tableIdx+1:]...)
+	ce.competition.State.Tables = tables
 }
 
 func (ce *competitionEngine) deletePlayer(playerIdx int) {
 	ce.playersMu.Lock()
 	defer ce.playersMu.Unlock()
 
-	ce.competition.State.Players = append(ce.competition.State.Players[:playerIdx], ce.competition.State.Players[playerIdx+1:]...)
+	// 不就地搬移: 可能有其他流程 (e.g. 排名計算) 正在走訪原本的玩家
+	players := make([]*CompetitionPlayer, 0, len(ce.competition.State.Players))
+	players = append(players, ce.competition.State.Players[:playerIdx]...)
+	players = append(players, ce.competition.State.Players[playerIdx+1:]...)
+	ce.competition.State.Players = players
 }
 
 /*
-- 
2.43.0


From 534e9fe9b5e06eeda5c0fd3fcbf41f72f9ff7833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 35/57] fix: a break does not undo reaching the advancement
 level

---
 competition.go                 | 11 +++++++++++
 competition_engine_internal.go |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/competition.go b/competition.go
index cd8eb6d..026c587 100644
--- a/competition.go
+++ b/competition.go
@@ -279,6 +279,17 @@ func (c Competition) CurrentBlindLevel() BlindLevel {
 	return c.Meta.Blind.Levels[c.State.BlindState.CurrentLevelIndex]
 }
 
+// reachedBlindLevel 目前已達到的盲注等級 (中場休息沒有盲注等級，以休息前的等級為準)
+func (c Competition) reachedBlindLevel() int {
+	reached := c.CurrentBlindLevel().Level
+	for i := 0; i <= c.State.BlindState.CurrentLevelIndex; i++ {
+		if level := c.Meta.Blind.Levels[i].Level; level > reached {
+			reached = level
+		}
+	}
+	return reached
+}
+
 func (c Competition) CurrentBlindData() (int, int64, int64, int64, int64) {
 	bl := c.CurrentBlindLevel()
 	dealer := int64(0)
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 782b9de..50800cf 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -388,7 +388,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 
 		switch ce.competition.Meta.AdvanceSetting.Rule {
 		case CompetitionAdvanceRule_BlindLevel:
-			if ce.competition.CurrentBlindLevel().Level >= ce.competition.Meta.AdvanceSetting.BlindLevel {
+			if ce.competition.reachedBlindLevel() >= ce.competition.Meta.AdvanceSetting.BlindLevel {
 				shouldAdvancePauseTableGame = true
 			}
 		case CompetitionAdvanceRule_PlayerCount:
-- 
2.43.0


From c8cff63caf3cab677c50da69406a0465d0019147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:00 +0000
Subject: [PATCH 36/57] fix: the native table service reports when the first
 hand can be opened

---
 native_table_manager_backend.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 87669c0..2c519c5 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -91,6 +91,20 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 
 		ntmb.onTablePlayerReserved(tableID, &clonePlayerState)
 	}
+	callbacks.OnReadyOpenFirstTableGame = func(competitionID, tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		data, err := json.Marshal(playerStates)
+		if err != nil {
+			return
+		}
+
+		var clonePlayerStates []*pokertable.TablePlayerState
+		err = json.Unmarshal([]byte(data), &clonePlayerStates)
+		if err != nil {
+			return
+		}
+
+		ntmb.onReadyOpenFirstTableGame(tableID, gameCount, clonePlayerStates)
+	}
 
 	table, err := ntmb.manager.CreateTable(options, callbacks, setting)
 	if err != nil {
-- 
2.43.0


From 2fb7d4eb5b0a2ba9df6b823981b19b18ed07d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:38 +0000
Subject: [PATCH 37/57] fix: the action time running out does not take a player
 out of auto mode

---
 actor/player_runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 66a6bb9..4ad9925 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -265,6 +265,11 @@ func (pr *PlayerRunner) Resume() error {
 }
 
 func (pr *PlayerRunner) Idle() error {
+	// 託管中維持託管
+	if pr.status == PlayerStatus_Suspend {
+		return nil
+	}
+
 	if pr.status != PlayerStatus_Idle {
 		pr.status = PlayerStatus_Idle
 		pr.idleCount = 0
-- 
2.43.0


From b39f371758cf1b415a9095f94d2a5f4ff3888df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:13 +0000
Subject: [PATCH 38/57] fix: a table update without a dealt hand does not crash
 the runners

---
 actor/bot_runner.go    | 3 ++-
 actor/player_runner.go | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 9dbff43..edba218 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -125,7 +125,8 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 		br.lastGameStateTime = gs.UpdatedAt
 	}
 
-	if table.State.Status != pokertable.TableStateStatus_TableGamePlaying {
+	// No hand is in play or it has not been dealt yet
+	if table.State.Status != pokertable.TableStateStatus_TableGamePlaying || gs == nil {
 		return nil
 	}
 
diff --git a/actor/player_runner.go b/actor/player_runner.go
index 4ad9925..d72306c 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -76,7 +76,8 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 		cloneTable = *table
 	}
 	// hide certain game state fields for player when table game is playing
-	if cloneTable.State.Status == pokertable.TableStateStatus_TableGamePlaying || cloneTable.State.Status == pokertable.TableStateStatus_TableGameSettled {
+	isHandShown := cloneTable.State.Status == pokertable.TableStateStatus_TableGamePlaying || cloneTable.State.Status == pokertable.TableStateStatus_TableGameSettled
+	if isHandShown && cloneTable.State.GameState != nil {
 		gpIdx := table.GamePlayerIndex(pr.playerID)
 		cloneTable.State.GameState.AsPlayer(gpIdx)
 	}
@@ -126,6 +127,11 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	switch table.State.Status {
 	case pokertable.TableStateStatus_TableGamePlaying:
 
+		// The hand has not been dealt yet
+		if gs == nil {
+			return nil
+		}
+
 		// Somehow, this player is not in the game.
 		// It probably has no chips already.
 		if gamePlayerIdx == -1 {
-- 
2.43.0


From b5daeeea0f455e8bc9ccc9374f5ff276a7158bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:43 +0000
Subject: [PATCH 39/57] fix: acting does not stop the action time of the next
 request

---
 actor/player_runner.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index d72306c..5cdcdb5 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -203,7 +203,11 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 		return pr.automate(gs, playerIdx)
 	}
 
-	// Setup timebank to wait for player
+	// Setup timebank to wait for player. Every request has its own, so that an
+	// action stops the timebank of the request it answers and not the one of a
+	// request that came meanwhile
+	pr.timebank.Cancel()
+	pr.timebank = timebank.NewTimeBank()
 	thinkingTime := time.Duration(pr.tableInfo.Meta.ActionTime) * time.Second
 	return pr.timebank.NewTask(thinkingTime, func(isCancelled bool) {
 
@@ -301,67 +305,72 @@ func (pr *PlayerRunner) Suspend() error {
 
 func (pr *PlayerRunner) Pass() error {
 
+	tb := pr.timebank
 	err := pr.actions.Pass()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Ready() error {
 
+	tb := pr.timebank
 	err := pr.actions.Ready()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Pay(chips int64) error {
 
+	tb := pr.timebank
 	err := pr.actions.Pay(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Check() error {
 
+	tb := pr.timebank
 	err := pr.actions.Check()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
+	tb.Cancel()
 	pr.updateWagerAction(pokertable.WagerAction_Check, 0)
-	pr.timebank.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Bet(chips int64) error {
 
+	tb := pr.timebank
 	err := pr.actions.Bet(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
+	tb.Cancel()
 	pr.updateWagerAction(pokertable.WagerAction_Bet, chips)
-	pr.timebank.Cancel()
 
 	return nil
 }
@@ -375,27 +384,29 @@ func (pr *PlayerRunner) Call() error {
 		wager = pr.tableInfo.State.GameState.Status.CurrentWager - pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
 	}
 
+	tb := pr.timebank
 	err := pr.actions.Call()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
+	tb.Cancel()
 	pr.updateWagerAction(pokertable.WagerAction_Call, wager)
-	pr.timebank.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Fold() error {
 	pr.Resume()
+	tb := pr.timebank
 	err := pr.actions.Fold()
 	if err != nil {
 		return err
 	}
 
+	tb.Cancel()
 	pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
-	pr.timebank.Cancel()
 
 	return nil
 }
@@ -408,28 +419,30 @@ func (pr *PlayerRunner) Allin() error {
 		wager = pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 	}
 
+	tb := pr.timebank
 	err := pr.actions.Allin()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
+	tb.Cancel()
 	pr.updateWagerAction(pokertable.WagerAction_AllIn, wager)
-	pr.timebank.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
+	tb := pr.timebank
 	err := pr.actions.Raise(chipLevel)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
+	tb.Cancel()
 	pr.updateWagerAction(pokertable.WagerAction_Raise, chipLevel)
-	pr.timebank.Cancel()
 
 	return nil
 }
-- 
2.43.0


From 13616305d8fdb47c4dcd0b70dbb4696822a338f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:30 +0000
Subject: [PATCH 40/57] fix: a bot betting its last chips reports the bet

---
 actor/bot_runner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index edba218..6ee601e 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -296,7 +296,13 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		minBet := gs.Status.MiniBet
 
 		if player.InitialStackSize <= minBet {
-			return br.actions.Bet(player.InitialStackSize)
+			err := br.actions.Bet(player.InitialStackSize)
+			if err != nil {
+				return err
+			}
+
+			br.updateWagerAction(pokertable.WagerAction_Bet, player.InitialStackSize)
+			return nil
 		}
 
 		chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
-- 
2.43.0


From 82b062ddfe15dc25a9c0bd192eef74ef58dbaa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:42 +0000
Subject: [PATCH 41/57] fix: published player counts follow every change of a
 player's state

---
 competition_engine.go          | 4 ++++
 competition_engine_internal.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 9bf0bae..5ab3acd 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -73,6 +73,7 @@ type competitionEngine struct {
 	lifecycleMu                         sync.Mutex // guards isStarted & isSettled
 	playersMu                           sync.Mutex // guards the entries of competition.State.Players
 	ranksMu                             sync.Mutex // guards the ranks written by refreshPlayerCompetitionRanks
+	statisticMu                         sync.Mutex // guards the counts written by refreshPlayerStatusStatistics
 	competition                         *Competition
 	playerCaches                        sync.Map // key: <competitionID.playerID>, value: PlayerCache
 	cashOutPlayers                      sync.Map // key: playerID, value: true (players being cashed out)
@@ -705,6 +706,7 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("PlayerCashOut -> Cash Leaving", cp)
 
 	// 尚未開賽時 or 已經開賽但是賽事只剩一人，則直接結算，玩家直接離桌結算
@@ -759,6 +761,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
+		ce.refreshPlayerStatusStatistics()
 		ce.mu.Unlock()
 
 		ce.emitPlayerEvent("quit knockout", cp)
@@ -780,6 +783,7 @@ func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playe
 	cp.CurrentSeat = playerState.Seat
 	cp.CurrentTableID = tableID
 	cp.Status = CompetitionPlayerStatus_Playing
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("[UpdateReserveTablePlayerState] player table seat updated", cp)
 	ce.emitEvent(fmt.Sprintf("[UpdateReserveTablePlayerState] player (%s) is reserved to table (%s) at seat (%d)", cp.PlayerID, cp.CurrentTableID, cp.CurrentSeat), cp.PlayerID)
 }
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 50800cf..f8ad2f2 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -558,6 +558,7 @@ func (ce *competitionEngine) handleMTTTableSettlementNextStep(table pokertable.T
 					ce.emitPlayerEvent("[UpdateTablePlayers] reserve table", newJoinCompetitionPlayer)
 				}
 			}
+			ce.refreshPlayerStatusStatistics()
 		}
 	}
 
@@ -632,6 +633,7 @@ func (ce *competitionEngine) handleCashOut(tableID string, playerIDs []string) {
 	}
 	ce.competition.State.Players = newPlayers
 	ce.playersMu.Unlock()
+	ce.refreshPlayerStatusStatistics()
 
 	// Emit Event
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
@@ -1379,6 +1381,10 @@ func (ce *competitionEngine) initAdvancement() {
 }
 
 func (ce *competitionEngine) refreshPlayerStatusStatistics() {
+	// 各桌可能同時更新玩家狀態，統計需一次完成，避免舊統計覆蓋新統計
+	ce.statisticMu.Lock()
+	defer ce.statisticMu.Unlock()
+
 	ce.competition.State.Statistic.PlayingPlayerCount = ce.competition.GetPlayerCountByStatus(CompetitionPlayerStatus_Playing)
 	ce.competition.State.Statistic.WaitingTableBalancingPlayerCount = ce.competition.GetPlayerCountByStatus(CompetitionPlayerStatus_WaitingTableBalancing)
 	ce.competition.State.Statistic.KnockoutPlayerCount = ce.competition.GetPlayerCountByStatus(CompetitionPlayerStatus_Knockout)
-- 
2.43.0


From 5daadecc1e3adda0836cfcc3f5161287d098dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:42 +0000
Subject: [PATCH 42/57] fix: failures of the table service are no longer silent

---
 competition_engine.go          | 10 ++++++++--
 competition_engine_internal.go |  8 ++++++--
 regulator.go                   |  2 ++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 5ab3acd..d9ad541 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -545,7 +545,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		// 更新拆併桌監管器狀態
 		if ce.isRegulatorStarted {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
-			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
+			if err := ce.regulatorAddPlayers([]string{joinPlayer.PlayerID}); err != nil {
+				ce.emitErrorEvent("PlayerBuyIn -> MTT Regulator Add Players", joinPlayer.PlayerID, err)
+			}
 		} else {
 			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
 			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
@@ -875,5 +877,9 @@ func (ce *competitionEngine) ReadyFirstTableGame(tableID string, gameCount int,
 	}
 
 	participants := ce.generateAliveParticipants(players)
-	return ce.tableManagerBackend.SetUpTableGame(tableID, gameCount, participants)
+	if err := ce.tableManagerBackend.SetUpTableGame(tableID, gameCount, participants); err != nil {
+		ce.emitErrorEvent("ReadyFirstTableGame -> SetUpTableGame", "", err)
+		return err
+	}
+	return nil
 }
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index f8ad2f2..5fae7a9 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -159,7 +159,9 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 	// re-open game
 	if shouldReOpenGame && !ce.competition.IsBreaking() {
 		nextGameCount := table.State.GameCount + 1
-		ce.tableManagerBackend.SetUpTableGame(table.ID, nextGameCount, aliveParticipants)
+		if err := ce.tableManagerBackend.SetUpTableGame(table.ID, nextGameCount, aliveParticipants); err != nil {
+			ce.emitErrorEvent("Game Reopen -> SetUpTableGame", "", err)
+		}
 		ce.emitEvent("Game Reopen:", "")
 	}
 }
@@ -695,7 +697,9 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 						}
 						return
 					}
-					ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
+					if err := ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants); err != nil {
+						ce.emitErrorEvent("resume game from breaking & set up game", "", err)
+					}
 				}
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
diff --git a/regulator.go b/regulator.go
index b0a4b7c..631188e 100644
--- a/regulator.go
+++ b/regulator.go
@@ -49,6 +49,7 @@ func (ce *competitionEngine) regulatorCreateAndDistributePlayers(playerIDs []str
 	}
 	tableID, err := ce.addCompetitionTable(tableSetting, blind)
 	if err != nil {
+		ce.emitErrorEvent("MTT Regulator Create Table", strings.Join(playerIDs, ","), err)
 		return "", err
 	}
 
@@ -81,6 +82,7 @@ func (ce *competitionEngine) regulatorDistributePlayers(tableID string, playerID
 		})
 	}
 	if _, err := ce.tableManagerBackend.UpdateTablePlayers(tableID, joinPlayers, []string{}); err != nil {
+		ce.emitErrorEvent("MTT Regulator Distribute Players -> UpdateTablePlayers", strings.Join(playerIDs, ","), err)
 		return err
 	}
 
-- 
2.43.0


From a9b4669803b620d30f03fc2eaed0fa12b1227dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:42 +0000
Subject: [PATCH 43/57] fix: a quit the table service refuses is not reported
 as done

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index d9ad541..3148cb3 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -755,7 +755,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 
 	if err := ce.tableManagerBackend.PlayersLeave(tableID, []string{playerID}); err != nil {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
-		// ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
+		return err
 	} else {
 		ce.mu.Lock()
 		cp := ce.competition.State.Players[playerIdx]
-- 
2.43.0


From fed803fbfb0d45302ba8cb3d02a0e274466a72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:27 +0000
Subject: [PATCH 44/57] fix: a quit does not undo a re-buy made meanwhile

---
 competition_engine.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 3148cb3..ae62c3c 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -753,11 +753,20 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		return ErrCompetitionQuitRejected
 	}
 
+	reBuyTimes := ce.competition.State.Players[playerIdx].ReBuyTimes
 	if err := ce.tableManagerBackend.PlayersLeave(tableID, []string{playerID}); err != nil {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
 		return err
 	} else {
 		ce.mu.Lock()
+		// 離桌期間可能有玩家退賽或該玩家已補碼
+		playerIdx = ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
+			return player.PlayerID == playerID
+		})
+		if playerIdx == UnsetValue || ce.competition.State.Players[playerIdx].ReBuyTimes != reBuyTimes {
+			ce.mu.Unlock()
+			return nil
+		}
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = CompetitionPlayerStatus_ReBuyWaiting
 		cp.IsReBuying = false
-- 
2.43.0


From 8f046f95fa575750564081e811b7374820ea824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:49 +0000
Subject: [PATCH 45/57] fix: players out at the end of registration are ranked
 at once, before tables are merged

---
 competition_engine_internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 5fae7a9..7e7578a 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1202,11 +1202,6 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 
 				ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
 
-				// MTT 在停止買入階段，更新拆併桌監管器狀態
-				if ce.competition.Meta.Mode == CompetitionMode_MTT {
-					ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
-				}
-
 				// 淘汰沒資格玩家
 				playerIdxMap := ce.competition.GetPlayerIndexMap()
 				knockoutPlayerRankings := ce.GetSortedStopBuyInKnockoutPlayerRankings()
@@ -1246,6 +1241,11 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 					ce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)
 				}
 
+				// MTT 在停止買入階段，更新拆併桌監管器狀態 (可能要等待拆併桌完成，先記錄淘汰玩家的名次)
+				if ce.competition.Meta.Mode == CompetitionMode_MTT {
+					ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
+				}
+
 				if len(leavePlayerIDs) > 0 && len(ce.competition.State.Tables) > 0 {
 					if err := ce.tableManagerBackend.PlayersLeave(ce.competition.State.Tables[0].ID, leavePlayerIDs); err != nil {
 						ce.emitErrorEvent("Stopped BuyIn Knockout Players -> PlayersLeave", strings.Join(leavePlayerIDs, ","), err)
-- 
2.43.0


From d1f86ea194c2ebbcedc7d00ff185873b3911aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:28 +0000
Subject: [PATCH 46/57] fix: a cash leave request and a cash-out are announced
 by an update

---
 competition_engine.go          | 1 +
 competition_engine_internal.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index ae62c3c..2ca7290 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -710,6 +710,7 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	cp.Status = CompetitionPlayerStatus_CashLeaving
 	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("PlayerCashOut -> Cash Leaving", cp)
+	ce.emitEvent("PlayerCashOut -> Cash Leaving", playerID)
 
 	// 尚未開賽時 or 已經開賽但是賽事只剩一人，則直接結算，玩家直接離桌結算
 	competitionNotStart := ce.competition.State.Status == CompetitionStateStatus_Registering
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 7e7578a..4848c35 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -638,6 +638,7 @@ func (ce *competitionEngine) handleCashOut(tableID string, playerIDs []string) {
 	ce.refreshPlayerStatusStatistics()
 
 	// Emit Event
+	ce.emitEvent("Cash Out", strings.Join(leavePlayerIDs, ","))
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
 }
 
-- 
2.43.0


From 64d4fc81e762ec170df504dd8e6df0dbbc066bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:28 +0000
Subject: [PATCH 47/57] fix: a quit does not bring a player back who was
 knocked out meanwhile

---
 competition_engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 2ca7290..33f40dc 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -769,6 +769,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 			return nil
 		}
 		cp := ce.competition.State.Players[playerIdx]
+		if cp.Status == CompetitionPlayerStatus_Knockout || ce.isEndStatus() {
+			// 離桌期間已停止買入或結束賽事，該玩家已被淘汰
+			ce.mu.Unlock()
+			return nil
+		}
 		cp.Status = CompetitionPlayerStatus_ReBuyWaiting
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
-- 
2.43.0


From 19132b0baa927f470ce77c2f5d7c5363c54de17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:28 +0000
Subject: [PATCH 48/57] fix: a table update, a table closing and a new table do
 not get in each other's way

---
 competition_engine.go          | 29 ++++++++++++++++++-----------
 competition_engine_internal.go | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 33f40dc..9169d58 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -72,6 +72,7 @@ type competitionEngine struct {
 	mu                                  sync.RWMutex
 	lifecycleMu                         sync.Mutex // guards isStarted & isSettled
 	playersMu                           sync.Mutex // guards the entries of competition.State.Players
+	tablesMu                            sync.Mutex // guards the entries of competition.State.Tables
 	ranksMu                             sync.Mutex // guards the ranks written by refreshPlayerCompetitionRanks
 	statisticMu                         sync.Mutex // guards the counts written by refreshPlayerStatusStatistics
 	competition                         *Competition
@@ -806,15 +807,18 @@ func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playe
 }
 
 func (ce *competitionEngine) AutoGameOpenEnd(tableID string) error {
+	ce.tablesMu.Lock()
 	tableIdx := ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
 		return tableID == t.ID
 	})
 	if tableIdx == UnsetValue {
+		ce.tablesMu.Unlock()
 		return ErrCompetitionTableNotFound
 	}
+	table := ce.competition.State.Tables[tableIdx]
+	ce.tablesMu.Unlock()
 
 	// CT 停止買入且賽事沒有繼續自動開桌，則自動結束賽事
-	table := ce.competition.State.Tables[tableIdx]
 	shouldClose := table.Meta.Mode == string(CompetitionMode_CT) && ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn
 
 	// 桌次時間已到而不再開下一手，結算時若還沒到結束時間，在這裡結束賽事
@@ -837,13 +841,6 @@ func (ce *competitionEngine) ReleaseTables() error {
 }
 
 func (ce *competitionEngine) UpdateTable(table *pokertable.Table) {
-	tableIdx := ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
-		return table.ID == t.ID
-	})
-	if tableIdx == UnsetValue {
-		return
-	}
-
 	if ce.isEndStatus() {
 		// fmt.Println("[DEBUG#UpdateTable] status is end, no need to update table. Status:", string(ce.competition.State.Status))
 		return
@@ -857,14 +854,24 @@ func (ce *competitionEngine) UpdateTable(table *pokertable.Table) {
 		cloneTable = *table
 	}
 
-	// 較晚送達的舊桌次更新不覆蓋新狀態，只處理尚未結算的手牌
-	isOutdated := cloneTable.UpdateSerial < ce.competition.State.Tables[tableIdx].UpdateSerial
-	if isOutdated && cloneTable.State.Status != pokertable.TableStateStatus_TableGameSettled {
+	ce.tablesMu.Lock()
+	tableIdx := ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
+		return table.ID == t.ID
+	})
+	if tableIdx == UnsetValue {
+		ce.tablesMu.Unlock()
 		return
 	}
+
+	// 較晚送達的舊桌次更新不覆蓋新狀態，只處理尚未結算的手牌
+	isOutdated := cloneTable.UpdateSerial < ce.competition.State.Tables[tableIdx].UpdateSerial
 	if !isOutdated {
 		ce.competition.State.Tables[tableIdx] = &cloneTable
 	}
+	ce.tablesMu.Unlock()
+	if isOutdated && cloneTable.State.Status != pokertable.TableStateStatus_TableGameSettled {
+		return
+	}
 
 	// 處理因 table status 產生的變化
 	tableStatusHandlerMap := map[pokertable.TableStateStatus]func(pokertable.Table, int){
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 4848c35..0632e6d 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -179,7 +179,9 @@ func (ce *competitionEngine) addCompetitionTable(tableSetting TableSetting, blin
 	}
 
 	// add table
+	ce.tablesMu.Lock()
 	ce.competition.State.Tables = append(ce.competition.State.Tables, table)
+	ce.tablesMu.Unlock()
 
 	// 建桌期間盲注升級，補更新該桌盲注
 	if ce.blind.IsStarted() && ce.competition.CurrentBlindLevel().Level != blind.Level {
@@ -245,12 +247,24 @@ func (ce *competitionEngine) settleCompetition(endCompetitionStatus CompetitionS
 	ce.gameSettledRecords = sync.Map{}
 }
 
-func (ce *competitionEngine) deleteTable(tableIdx int) {
+func (ce *competitionEngine) deleteTable(tableID string) bool {
+	ce.tablesMu.Lock()
+	defer ce.tablesMu.Unlock()
+
+	// 其他桌次可能同時關閉，位置以當下為準
+	tableIdx := ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
+		return tableID == t.ID
+	})
+	if tableIdx == UnsetValue {
+		return false
+	}
+
 	// 不就地搬移: 可能有其他流程 (e.g. 更新盲注) 正在走訪原本的桌次
 	tables := make([]*pokertable.Table, 0, len(ce.competition.State.Tables))
 	tables = append(tables, ce.competition.State.Tables[:tableIdx]...)
 	tables = append(tables, ce.competition.State.Tables[tableIdx+1:]...)
 	ce.competition.State.Tables = tables
+	return true
 }
 
 func (ce *competitionEngine) deletePlayer(playerIdx int) {
@@ -275,7 +289,9 @@ func (ce *competitionEngine) closeCompetitionTable(table pokertable.Table, table
 	ce.breakingMu.Unlock()
 
 	// competition close table
-	ce.deleteTable(tableIdx)
+	if !ce.deleteTable(table.ID) {
+		return
+	}
 	ce.emitEvent("closeCompetitionTable", "")
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)
 
-- 
2.43.0


From a4bccac9399e20dd45c72e31f1d469d67ef1a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:23 +0000
Subject: [PATCH 49/57] fix: a buy-in, add-on or settlement never writes to
 another player when someone leaves meanwhile

---
 competition.go                 | 10 ++++++++++
 competition_engine.go          | 28 ++++++++++++----------------
 competition_engine_internal.go | 31 +++++++++++++------------------
 rank.go                        | 11 +++++++----
 4 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/competition.go b/competition.go
index 026c587..c54efd8 100644
--- a/competition.go
+++ b/competition.go
@@ -272,6 +272,16 @@ func (c Competition) FindPlayerIdx(predicate func(*CompetitionPlayer) bool) int
 	return UnsetValue
 }
 
+// FindPlayer 取得玩家本身，其他玩家同時離開時 index 會位移，不可先取 index 再取玩家
+func (c Competition) FindPlayer(predicate func(*CompetitionPlayer) bool) *CompetitionPlayer {
+	for _, player := range c.State.Players {
+		if predicate(player) {
+			return player
+		}
+	}
+	return nil
+}
+
 func (c Competition) CurrentBlindLevel() BlindLevel {
 	if c.State.BlindState.CurrentLevelIndex < 0 {
 		return BlindLevel{}
diff --git a/competition_engine.go b/competition_engine.go
index 9169d58..22e343c 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -419,16 +419,16 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	ce.mu.Lock()
 	defer ce.mu.Unlock()
 
-	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
+	cp := ce.competition.FindPlayer(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
-	isBuyIn := playerIdx == UnsetValue
+	isBuyIn := cp == nil
 	validStatuses := []CompetitionStateStatus{
 		CompetitionStateStatus_Registering,
 		CompetitionStateStatus_DelayedBuyIn,
 	}
 	if !funk.Contains(validStatuses, ce.competition.State.Status) {
-		if playerIdx == UnsetValue {
+		if isBuyIn {
 			return ErrCompetitionBuyInRejected
 		} else {
 			return ErrCompetitionReBuyRejected
@@ -437,8 +437,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 
 	if ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_MTT {
 		if !isBuyIn {
-			cp := ce.competition.State.Players[playerIdx]
-
 			// validate re-buy player
 			if cp.Status == CompetitionPlayerStatus_Knockout {
 				return ErrCompetitionReBuyRejected
@@ -498,7 +496,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		competitionPlayer = &player
 	} else {
 		// ReBuy logic
-		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = playerStatus
 		cp.ReBuyWaitingAt = UnsetValue
 		cp.Chips += joinPlayer.RedeemChips
@@ -570,10 +567,10 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	ce.mu.Lock()
 	defer ce.mu.Unlock()
 
-	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
+	cp := ce.competition.FindPlayer(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
-	if playerIdx == UnsetValue {
+	if cp == nil {
 		return ErrCompetitionAddonRejected
 	}
 
@@ -585,7 +582,7 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	if !funk.Contains(validStatuses, ce.competition.State.Status) {
 		return ErrCompetitionAddonRejected
 	}
-	if player := ce.competition.State.Players[playerIdx]; player.Chips <= 0 || player.CurrentTableID != tableID || player.CurrentSeat == UnsetValue {
+	if cp.Chips <= 0 || cp.CurrentTableID != tableID || cp.CurrentSeat == UnsetValue {
 		return ErrCompetitionAddonRejected
 	}
 
@@ -598,7 +595,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionAddonRejected
 	}
 
-	cp := ce.competition.State.Players[playerIdx]
 	if cp.AddonTimes >= ce.competition.Meta.AddonSetting.MaxTime {
 		return ErrCompetitionExceedAddonLimit
 	}
@@ -691,10 +687,10 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	defer ce.mu.Unlock()
 
 	// validate leave conditions
-	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
+	cp := ce.competition.FindPlayer(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
 	})
-	if playerIdx == UnsetValue {
+	if cp == nil {
 		return ErrCompetitionLeaveRejected
 	}
 
@@ -707,7 +703,6 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	}
 
 	// update player status
-	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
 	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("PlayerCashOut -> Cash Leaving", cp)
@@ -792,12 +787,13 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 
 func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playerState *pokertable.TablePlayerState) {
 	// 更新玩家狀態
-	playerIdx, exist := ce.competition.GetPlayerIndexMap()[playerState.PlayerID]
-	if !exist {
+	cp := ce.competition.FindPlayer(func(player *CompetitionPlayer) bool {
+		return player.PlayerID == playerState.PlayerID
+	})
+	if cp == nil {
 		return
 	}
 
-	cp := ce.competition.State.Players[playerIdx]
 	cp.CurrentSeat = playerState.Seat
 	cp.CurrentTableID = tableID
 	cp.Status = CompetitionPlayerStatus_Playing
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 0632e6d..7305ff9 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -632,13 +632,13 @@ func (ce *competitionEngine) handleCashOut(tableID string, playerIDs []string) {
 
 	// Cash Out
 	for _, leavePlayerID := range leavePlayerIDs {
-		playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
+		cp := ce.competition.FindPlayer(func(player *CompetitionPlayer) bool {
 			return player.PlayerID == leavePlayerID
 		})
-		if playerIdx == UnsetValue {
+		if cp == nil {
 			continue
 		}
-		ce.onCompetitionPlayerCashOut(ce.competition.ID, ce.competition.State.Players[playerIdx])
+		ce.onCompetitionPlayerCashOut(ce.competition.ID, cp)
 	}
 
 	// keep players that are not cashing out
@@ -809,15 +809,14 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 			continue
 		}
 
-		rebuyPlayerIdx := ce.competition.FindPlayerIdx(func(competitionPlayer *CompetitionPlayer) bool {
+		cp := ce.competition.FindPlayer(func(competitionPlayer *CompetitionPlayer) bool {
 			return competitionPlayer.PlayerID == player.PlayerID
 		})
-		if rebuyPlayerIdx == UnsetValue {
+		if cp == nil {
 			// fmt.Printf("[handleReBuy#start] player (%s) is not in the competition\n", player.PlayerID)
 			continue
 		}
 
-		cp := ce.competition.State.Players[rebuyPlayerIdx]
 		if cp.Status == CompetitionPlayerStatus_CashLeaving {
 			// 要離開的現金桌玩家，這手結算就會離桌
 			continue
@@ -878,15 +877,14 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 
 			leavePlayerIDs := make([]string, 0)
 			for _, reBuyPlayerID := range reBuyPlayerIDs {
-				reBuyPlayerIdx := ce.competition.FindPlayerIdx(func(competitionPlayer *CompetitionPlayer) bool {
+				cp := ce.competition.FindPlayer(func(competitionPlayer *CompetitionPlayer) bool {
 					return competitionPlayer.PlayerID == reBuyPlayerID
 				})
-				if reBuyPlayerIdx == UnsetValue {
+				if cp == nil {
 					// fmt.Printf("[handleReBuy#after] player (%s) is not in the competition\n", reBuyPlayerID)
 					continue
 				}
 
-				cp := ce.competition.State.Players[reBuyPlayerIdx]
 				if cp.Chips > 0 {
 					// fmt.Printf("[handleReBuy#after] player (%s) is already re buy (%d) chips\n", reBuyPlayerID, cp.Chips)
 					continue
@@ -938,15 +936,14 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 			continue
 		}
 
-		playerIdx := ce.competition.FindPlayerIdx(func(competitionPlayer *CompetitionPlayer) bool {
+		cp := ce.competition.FindPlayer(func(competitionPlayer *CompetitionPlayer) bool {
 			return competitionPlayer.PlayerID == player.PlayerID
 		})
-		if playerIdx == UnsetValue {
+		if cp == nil {
 			// fmt.Printf("[updatePlayerCompetitionTableRecords#statistic] player (%s) is not in the competition\n", player.PlayerID)
 			continue
 		}
 
-		cp := ce.competition.State.Players[playerIdx]
 		cp.TotalGameCounts++
 		if player.GameStatistics.IsFold {
 			cp.TotalFoldTimes++
@@ -1034,15 +1031,14 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 		tablePlayerIdx := table.State.GamePlayerIndexes[winnerGameIdx]
 		tablePlayer := table.State.PlayerStates[tablePlayerIdx]
 
-		playerIdx := ce.competition.FindPlayerIdx(func(competitionPlayer *CompetitionPlayer) bool {
+		cp := ce.competition.FindPlayer(func(competitionPlayer *CompetitionPlayer) bool {
 			return competitionPlayer.PlayerID == tablePlayer.PlayerID
 		})
-		if playerIdx == UnsetValue {
+		if cp == nil {
 			// fmt.Printf("[updatePlayerCompetitionTableRecords#winner] player (%s) is not in the competition\n", tablePlayer.PlayerID)
 			continue
 		}
 
-		cp := ce.competition.State.Players[playerIdx]
 		cp.TotalProfitTimes++
 
 		gs := table.State.GameState
@@ -1066,15 +1062,14 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 	// 桌次結算: 更新玩家桌內即時排名 & 當前後手碼量(該手有參賽者會更新排名，若沒參賽者排名為 0)
 	playerRankingData := ce.GetParticipatedPlayerTableRankingData(ce.competition.ID, table.State.PlayerStates, table.State.GamePlayerIndexes)
 	for playerID, rankData := range playerRankingData {
-		playerIdx := ce.competition.FindPlayerIdx(func(competitionPlayer *CompetitionPlayer) bool {
+		cp := ce.competition.FindPlayer(func(competitionPlayer *CompetitionPlayer) bool {
 			return competitionPlayer.PlayerID == playerID
 		})
-		if playerIdx == UnsetValue {
+		if cp == nil {
 			// fmt.Printf("[updatePlayerCompetitionTableRecords#table-settlement] player (%s) is not in the competition\n", playerID)
 			continue
 		}
 
-		cp := ce.competition.State.Players[playerIdx]
 		cp.Rank = rankData.Rank
 		cp.TableRank = rankData.Rank
 		if rankData.Rank > 0 {
diff --git a/rank.go b/rank.go
index 12a2c97..d91ab98 100644
--- a/rank.go
+++ b/rank.go
@@ -22,7 +22,10 @@ GetParticipatedPlayerTableRankingData 計算有參與該手玩家該桌即時排
 - @return 該桌玩家排名資料 Map, key: player id, value: RankData
 */
 func (ce *competitionEngine) GetParticipatedPlayerTableRankingData(competitionID string, tablePlayers []*pokertable.TablePlayerState, gamePlayerIndexes []int) map[string]RankData {
-	playerIndexMap := ce.competition.GetPlayerIndexMap()
+	joinAts := make(map[string]int64)
+	for _, cp := range ce.competition.State.Players {
+		joinAts[cp.PlayerID] = cp.JoinAt
+	}
 	playingPlayers := make([]pokertable.TablePlayerState, 0)
 	for _, playerIdx := range gamePlayerIndexes {
 		player := tablePlayers[playerIdx]
@@ -32,10 +35,10 @@ func (ce *competitionEngine) GetParticipatedPlayerTableRankingData(competitionID
 	// sort result
 	sort.Slice(playingPlayers, func(i int, j int) bool {
 		// 依照 Bankroll 排名由大到小排序，如果 Bankroll 相同則用加入時間排序 (早加入者名次高)
-		playerIdxI, iExist := playerIndexMap[playingPlayers[i].PlayerID]
-		playerIdxJ, jExist := playerIndexMap[playingPlayers[j].PlayerID]
+		joinAtI, iExist := joinAts[playingPlayers[i].PlayerID]
+		joinAtJ, jExist := joinAts[playingPlayers[j].PlayerID]
 		if playingPlayers[i].Bankroll == playingPlayers[j].Bankroll && (iExist && jExist) {
-			return ce.competition.State.Players[playerIdxI].JoinAt < ce.competition.State.Players[playerIdxJ].JoinAt
+			return joinAtI < joinAtJ
 		}
 		return playingPlayers[i].Bankroll > playingPlayers[j].Bankroll
 	})
-- 
2.43.0


From 6ef25b3f45cc8dc9633434404ef62ab986977cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:23 +0000
Subject: [PATCH 50/57] fix: refreshing ranks while a cash player leaves does
 not panic

---
 competition_engine_internal.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 7305ff9..502539e 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1421,12 +1421,12 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 	// 各桌可能同時結算，計算與更新排名需一次完成，避免舊排名覆蓋新排名
 	ce.ranksMu.Lock()
 
-	competitionPlayerIdxMap := make(map[string]int) // key player id, value: competition player index
+	competitionPlayerMap := make(map[string]*CompetitionPlayer) // key player id, value: competition player (計算期間玩家可能離開，不可使用 index)
 
 	// 分類玩家
 	playingPlayers := make([]CompetitionPlayer, 0)
 	reBuyWaitingPlayers := make([]CompetitionPlayer, 0)
-	for idx, p := range ce.competition.State.Players {
+	for _, p := range ce.competition.State.Players {
 		if p.Chips > 0 {
 			playingPlayers = append(playingPlayers, *p)
 		} else {
@@ -1434,7 +1434,7 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 				reBuyWaitingPlayers = append(reBuyWaitingPlayers, *p)
 			}
 		}
-		competitionPlayerIdxMap[p.PlayerID] = idx
+		competitionPlayerMap[p.PlayerID] = p
 	}
 
 	// 計算排名
@@ -1452,8 +1452,8 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 
 		// 更新還在玩且有籌碼玩家排名
 		for _, p := range playingPlayers {
-			if playerIdx, exist := competitionPlayerIdxMap[p.PlayerID]; exist {
-				ce.competition.State.Players[playerIdx].CompetitionRank = rank
+			if cp, exist := competitionPlayerMap[p.PlayerID]; exist {
+				cp.CompetitionRank = rank
 				rank++
 			}
 		}
@@ -1468,8 +1468,8 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 
 		// 更新還在玩但沒有籌碼 (補碼中) 玩家排名
 		for _, p := range reBuyWaitingPlayers {
-			if playerIdx, exist := competitionPlayerIdxMap[p.PlayerID]; exist {
-				ce.competition.State.Players[playerIdx].CompetitionRank = rank
+			if cp, exist := competitionPlayerMap[p.PlayerID]; exist {
+				cp.CompetitionRank = rank
 				rank++
 			}
 		}
@@ -1479,8 +1479,8 @@ func (ce *competitionEngine) refreshPlayerCompetitionRanks() {
 	if len(ce.competition.State.Rankings) > 0 {
 		// rank := ce.competition.PlayingPlayerCount() + (len(knockoutPlayerRankings) - idx)
 		for i := len(ce.competition.State.Rankings) - 1; i >= 0; i-- {
-			if playerIdx, exist := competitionPlayerIdxMap[ce.competition.State.Rankings[i].PlayerID]; exist {
-				ce.competition.State.Players[playerIdx].CompetitionRank = rank
+			if cp, exist := competitionPlayerMap[ce.competition.State.Rankings[i].PlayerID]; exist {
+				cp.CompetitionRank = rank
 				rank++
 			}
 		}
-- 
2.43.0


From 6e17421a37cae3ce8b62de8b6432921b8501d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:24 +0000
Subject: [PATCH 51/57] fix: a purchase under way when registration closes is
 seated or refused, never knocked out with chips

---
 competition_engine.go          | 12 ++++++++++++
 competition_engine_internal.go |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 22e343c..5177296 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -72,6 +72,7 @@ type competitionEngine struct {
 	mu                                  sync.RWMutex
 	lifecycleMu                         sync.Mutex // guards isStarted & isSettled
 	playersMu                           sync.Mutex // guards the entries of competition.State.Players
+	stopBuyInMu                         sync.Mutex // 停止買入與進行中的買入/補碼不可交錯
 	tablesMu                            sync.Mutex // guards the entries of competition.State.Tables
 	ranksMu                             sync.Mutex // guards the ranks written by refreshPlayerCompetitionRanks
 	statisticMu                         sync.Mutex // guards the counts written by refreshPlayerStatusStatistics
@@ -482,6 +483,16 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 
 	var competitionPlayer *CompetitionPlayer
 
+	// 停止買入可能剛好發生，檢查後才生效
+	ce.stopBuyInMu.Lock()
+	if !funk.Contains(validStatuses, ce.competition.State.Status) {
+		ce.stopBuyInMu.Unlock()
+		if isBuyIn {
+			return ErrCompetitionBuyInRejected
+		}
+		return ErrCompetitionReBuyRejected
+	}
+
 	// do logic
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
@@ -518,6 +529,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		ce.refreshPlayerCompetitionRanks()
 		competitionPlayer = cp
 	}
+	ce.stopBuyInMu.Unlock()
 
 	if isBuyIn {
 		ce.emitEvent(fmt.Sprintf("PlayerBuyIn -> %s Buy In", joinPlayer.PlayerID), joinPlayer.PlayerID)
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 502539e..32824a4 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1212,11 +1212,14 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 				// 處理晉級
 				ce.initAdvancement()
 
+				ce.stopBuyInMu.Lock()
+				isDelayedBuyIn := ce.competition.State.Status == CompetitionStateStatus_DelayedBuyIn
 				ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
 
 				// 淘汰沒資格玩家
 				playerIdxMap := ce.competition.GetPlayerIndexMap()
 				knockoutPlayerRankings := ce.GetSortedStopBuyInKnockoutPlayerRankings()
+				ce.stopBuyInMu.Unlock()
 				leavePlayerIDs := make([]string, 0)
 				for idx, knockoutPlayerID := range knockoutPlayerRankings {
 					playerIdx, exist := playerIdxMap[knockoutPlayerID]
@@ -1255,6 +1258,11 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 
 				// MTT 在停止買入階段，更新拆併桌監管器狀態 (可能要等待拆併桌完成，先記錄淘汰玩家的名次)
 				if ce.competition.Meta.Mode == CompetitionMode_MTT {
+					if isDelayedBuyIn {
+						// 等待停止買入前就進行中的買入/補碼完成，該玩家才能被分配到桌次
+						ce.mu.Lock()
+						ce.mu.Unlock()
+					}
 					ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
 				}
 
-- 
2.43.0


From 3e0b0670d1e38792bf453ab9551c7cf9422d768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:35 +0000
Subject: [PATCH 52/57] fix: starting an MTT competition while a player buys in
 seats the waiting players once

---
 competition_engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 5177296..3fc2392 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -400,10 +400,12 @@ func (ce *competitionEngine) StartCompetition() (int64, error) {
 			return ce.competition.State.StartAt, err
 		}
 	case CompetitionMode_MTT:
-		// 更新拆併桌監管器狀態
+		// 更新拆併桌監管器狀態 (與買入互斥，等待區的玩家只能被加入一次)
+		ce.mu.Lock()
 		if ce.shouldActivateRegulator() {
 			ce.activateRegulator()
 		}
+		ce.mu.Unlock()
 	}
 
 	ce.emitEvent("StartCompetition", "")
-- 
2.43.0


From a3040f847b3f3848a187b95f40a5d1ed4edb43c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:36 +0000
Subject: [PATCH 53/57] fix: a buy-in while the competition is being closed
 does not panic

---
 competition_engine.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 3fc2392..a29397f 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -426,6 +426,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
 	isBuyIn := cp == nil
+	tables := ce.competition.State.Tables // 賽事可能同時結束並關閉桌次，需使用同一份
 	validStatuses := []CompetitionStateStatus{
 		CompetitionStateStatus_Registering,
 		CompetitionStateStatus_DelayedBuyIn,
@@ -460,7 +461,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		} else {
 			// check ct buy in conditions
 			if ce.competition.Meta.Mode == CompetitionMode_CT {
-				if len(ce.competition.State.Tables) == 0 {
+				if len(tables) == 0 {
 					return ErrCompetitionTableNotFound
 				}
 				competitionPlayerCount := ce.competition.State.Statistic.PlayingPlayerCount
@@ -473,8 +474,8 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	}
 
 	tableID := ""
-	if (ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_Cash) && len(ce.competition.State.Tables) > 0 {
-		tableID = ce.competition.State.Tables[0].ID
+	if (ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_Cash) && len(tables) > 0 {
+		tableID = tables[0].ID
 	}
 
 	playerStatus := CompetitionPlayerStatus_Playing
@@ -516,8 +517,8 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.TotalRedeemChips += joinPlayer.RedeemChips
-		if (ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_Cash) && len(ce.competition.State.Tables) > 0 {
-			cp.CurrentTableID = ce.competition.State.Tables[0].ID
+		if (ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_Cash) && len(tables) > 0 {
+			cp.CurrentTableID = tables[0].ID
 		}
 		if ce.competition.Meta.Mode == CompetitionMode_MTT {
 			cp.CurrentTableID = "" // re-buy 時要清空 CurrentTableID 等待重新配桌
-- 
2.43.0


From fd964b24169a37564bf407ca251ce7ac88536701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:37 +0000
Subject: [PATCH 54/57] fix: a CT buy-in counts the players playing and those
 waiting to re-buy at one moment

---
 competition_engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index a29397f..4227e76 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -464,9 +464,12 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 				if len(tables) == 0 {
 					return ErrCompetitionTableNotFound
 				}
+				// 結算可能正在更新統計，兩個人數需為同一次統計的結果
+				ce.statisticMu.Lock()
 				competitionPlayerCount := ce.competition.State.Statistic.PlayingPlayerCount
 				reBuyPlayerCount := ce.competition.State.Statistic.ReBuyWaitingPlayerCount
-				if competitionPlayerCount+reBuyPlayerCount >= ce.competition.State.Tables[0].Meta.TableMaxSeatCount {
+				ce.statisticMu.Unlock()
+				if competitionPlayerCount+reBuyPlayerCount >= tables[0].Meta.TableMaxSeatCount {
 					return ErrCompetitionBuyInRejected
 				}
 			}
-- 
2.43.0


From a11d3848da51ced6fe8a5db8154017871b745df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:37 +0000
Subject: [PATCH 55/57] fix: closing a competition while a player leaves ranks
 the others and does not panic

---
 competition_engine_internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 32824a4..cc22f64 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1115,14 +1115,14 @@ func (ce *competitionEngine) updatePlayerFinalRankings() {
 		}
 
 		// 更新玩家排名
-		competitionPlayerIdxMap := make(map[string]int) // key player id, value: competition player index
-		for idx, p := range ce.competition.State.Players {
-			competitionPlayerIdxMap[p.PlayerID] = idx
+		competitionPlayers := make(map[string]*CompetitionPlayer) // 其他流程可能同時移除玩家，不使用位置
+		for _, p := range ce.competition.State.Players {
+			competitionPlayers[p.PlayerID] = p
 		}
 		for idx, ranking := range ce.competition.State.Rankings {
 			rank := idx + 1
-			if playerIdx, exist := competitionPlayerIdxMap[ranking.PlayerID]; exist {
-				ce.competition.State.Players[playerIdx].CompetitionRank = rank
+			if cp, exist := competitionPlayers[ranking.PlayerID]; exist {
+				cp.CompetitionRank = rank
 			}
 		}
 	}
-- 
2.43.0


From 68718b6408a535389f841545d2a7d734874c4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:38 +0000
Subject: [PATCH 56/57] fix: leaving cash players are paid when the table is
 paused after a break

---
 competition_engine_internal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cc22f64..2ff0b67 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -711,6 +711,13 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 						// 有籌碼但未入座的玩家不能開局，先暫停桌次，待玩家入座後重新開局
 						if err := ce.tableManagerBackend.PauseTable(tableID); err != nil {
 							ce.emitErrorEvent("resume game from breaking & pause table", "", err)
+							return
+						}
+
+						// 現金桌: 桌次服務不會再回報此次暫停，要離開的玩家直接離桌結算
+						t.State.Status = pokertable.TableStateStatus_TablePausing
+						if ce.competition.Meta.Mode == CompetitionMode_Cash {
+							ce.handleCashTableSettlement(*t)
 						}
 						return
 					}
-- 
2.43.0


From e1c8c98759cd586fd2b75d964fe57f40ae8e7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:35 +0000
Subject: [PATCH 57/57] fix: players knocked out at two tables at once are told
 different places

---
 competition_engine.go          |  1 +
 competition_engine_internal.go | 39 +++++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 4227e76..1d551fc 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -75,6 +75,7 @@ type competitionEngine struct {
 	stopBuyInMu                         sync.Mutex // 停止買入與進行中的買入/補碼不可交錯
 	tablesMu                            sync.Mutex // guards the entries of competition.State.Tables
 	ranksMu                             sync.Mutex // guards the ranks written by refreshPlayerCompetitionRanks
+	rankingsMu                          sync.Mutex // guards the entries knocked out players are given in the rankings
 	statisticMu                         sync.Mutex // guards the counts written by refreshPlayerStatusStatistics
 	competition                         *Competition
 	playerCaches                        sync.Map // key: <competitionID.playerID>, value: PlayerCache
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 2ff0b67..be30d3e 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -792,17 +792,40 @@ func (ce *competitionEngine) handleTableKnockoutPlayers(table pokertable.Table)
 		ce.emitPlayerEvent("table settlement knockout", cp)
 
 		// 更新賽事排名
-		ce.competition.State.Rankings = append(ce.competition.State.Rankings, &CompetitionRank{
-			PlayerID:   knockoutPlayerID,
-			FinalChips: 0,
-		})
-		rank := ce.competition.PlayingPlayerCount() + (len(knockoutPlayerRankings) - idx)
+		rank := ce.appendKnockoutRanking(knockoutPlayerID, len(knockoutPlayerRankings)-idx)
 		ce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)
 	}
 
 	return knockoutPlayerIDs
 }
 
+// appendKnockoutRanking 記錄淘汰玩家並回傳名次, remaining: 同一批還沒有名次的淘汰玩家人數 (含該玩家)
+func (ce *competitionEngine) appendKnockoutRanking(playerID string, remaining int) int {
+	ce.rankingsMu.Lock()
+	defer ce.rankingsMu.Unlock()
+
+	ce.competition.State.Rankings = append(ce.competition.State.Rankings, &CompetitionRank{
+		PlayerID:   playerID,
+		FinalChips: 0,
+	})
+	if !ce.competition.State.BlindState.IsStopBuyIn() {
+		return ce.competition.PlayingPlayerCount() + remaining
+	}
+
+	// 停止買入後: 其他桌次可能同時結算，還沒有名次的玩家名次都在該玩家之前
+	ranked := make(map[string]bool)
+	for _, ranking := range ce.competition.State.Rankings {
+		ranked[ranking.PlayerID] = true
+	}
+	rank := 1
+	for _, cp := range ce.competition.State.Players {
+		if !ranked[cp.PlayerID] {
+			rank++
+		}
+	}
+	return rank
+}
+
 func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 	if ce.competition.State.BlindState.IsStopBuyIn() {
 		return
@@ -1255,11 +1278,7 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 					}
 
 					// 更新賽事排名
-					ce.competition.State.Rankings = append(ce.competition.State.Rankings, &CompetitionRank{
-						PlayerID:   knockoutPlayerID,
-						FinalChips: 0,
-					})
-					rank := ce.competition.PlayingPlayerCount() + (len(knockoutPlayerRankings) - idx)
+					rank := ce.appendKnockoutRanking(knockoutPlayerID, len(knockoutPlayerRankings)-idx)
 					ce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)
 				}
 
-- 
2.43.0

