From a0e914a9f137cf29aed71f8d832c5974ff10e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 01/24] fix: keep donations whose amount equals the MEV reward
 of the block

---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..20e4675 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -577,7 +577,7 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	filteredEvents := make([]*contract.ContractEtherReceived, 0)
 	foundMev := false
 	for _, etherRxEvent := range b.Events.EtherReceived {
-		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
+		if !foundMev && etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
 			foundMev = true
 			continue
 		}
-- 
2.43.0


From d86fcf697163300e2c0881d072f9e30fb01eb318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 02/24] fix: clean up validators in a fixed order, so that all
 oracles agree when a consolidation target is cleaned up too

---
 oracle/oracle.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..8fac702 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -11,6 +11,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"sort"
 	"sync"
 
 	"github.com/avast/retry-go/v4"
@@ -300,7 +301,17 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 		// Iterate over all validators. If two or more validators exit or get slashed in the same slot,
 		// this cleanup will eventually set both of their pending rewards to 0 and share them among the pool
 		rewardsToDistribute := big.NewInt(0)
-		for _, validator := range validatorInfo {
+
+		// The order matters if the target of a consolidation is cleaned up in the same slot. Use always the same
+		// one (ascending index), so that all oracles end up with the same state.
+		sortedIndices := make([]phase0.ValidatorIndex, 0, len(validatorInfo))
+		for valIndex := range validatorInfo {
+			sortedIndices = append(sortedIndices, valIndex)
+		}
+		sort.Slice(sortedIndices, func(i, j int) bool { return sortedIndices[i] < sortedIndices[j] })
+
+		for _, valIndex := range sortedIndices {
+			validator := validatorInfo[valIndex]
 			// If a validator is subscribed but not active onchain, we have to unsubscribe it and treat it as a ban:
 			// this means setting the validator rewards to 0 and sharing them among the pool
 			idx := uint64(validator.Index)
-- 
2.43.0


From 28c831000d69de29325f82f9b9b76265f0f306ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 03/24] fix: do not take the read lock of the oracle
 recursively, a waiting writer in between deadlocks it

---
 oracle/oracle.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 8fac702..017e03e 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -124,7 +124,7 @@ func (or *Oracle) State() *OracleState {
 func (or *Oracle) IsCheckpoint() (bool, error) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
-	latestProcSlot := or.State().LatestProcessedSlot
+	latestProcSlot := or.state.LatestProcessedSlot
 
 	if latestProcSlot == 0 {
 		return false, errors.New(
@@ -783,11 +783,15 @@ func (or *Oracle) LatestCommitedSlot() (uint64, bool) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	if len(or.State().CommitedStates) == 0 {
+	return or.latestCommitedSlotLockFree()
+}
+
+func (or *Oracle) latestCommitedSlotLockFree() (uint64, bool) {
+	if len(or.state.CommitedStates) == 0 {
 		return 0, false
 	}
 	latestCommitedSlot := uint64(0)
-	for slot, _ := range or.State().CommitedStates {
+	for slot, _ := range or.state.CommitedStates {
 		if slot > latestCommitedSlot {
 			latestCommitedSlot = slot
 		}
@@ -800,14 +804,14 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
 		return nil
 	}
 
-	return or.State().CommitedStates[latestCommitedSlot]
+	return or.state.CommitedStates[latestCommitedSlot]
 }
 
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
-- 
2.43.0


From cc7ed3587f81869b7a78b717507a4089d6065848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 04/24] fix: release the lock of the oracle when saving or
 hashing its state fails

---
 oracle/oracle.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 017e03e..4edc0ea 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -147,14 +147,14 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	// Update hash
 	err := or.hashStateLockFree()
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	or.mutex.Unlock()
-	return or.State(), nil
+	return or.state, nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
@@ -508,6 +508,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	// but it cant be just a read mutex
 
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	log.Info("Saving oracle state to JSON file")
 
@@ -520,7 +521,6 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	if err != nil {
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
-	or.mutex.Unlock()
 
 	path := filepath.Join(StateFolder, StateJsonName)
 	err = os.MkdirAll(StateFolder, os.ModePerm)
@@ -548,7 +548,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	// If saveSlot is true, save a copy of the state with the slot number in the file
 	if saveSlot {
-		filename := fmt.Sprintf("state_%d.json", or.State().LatestProcessedSlot)
+		filename := fmt.Sprintf("state_%d.json", or.state.LatestProcessedSlot)
 		path = filepath.Join(StateFolder, filename)
 
 		log.WithFields(log.Fields{
-- 
2.43.0


From 3b2a43510e5d526b166a7b79334430837371e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 05/24] fix: write the state files atomically, a crash while
 saving left a truncated state that could not be loaded

---
 oracle/oracle.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 4edc0ea..7a49a49 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -530,7 +530,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	log.Trace("Saving state to file:", fmt.Sprintf("%s", jsonData))
 
-	err = ioutil.WriteFile(path, jsonData, 0644)
+	err = writeFileAtomic(path, jsonData)
 	if err != nil {
 		return errors.Wrap(err, "could not write file")
 	}
@@ -556,7 +556,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-		err = ioutil.WriteFile(path, jsonData, 0644)
+		err = writeFileAtomic(path, jsonData)
 		if err != nil {
 			return errors.Wrap(err, "could not write file")
 		}
@@ -565,6 +565,28 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	return nil
 }
 
+// Writes the file in a temporary one that then replaces the original, so that if the oracle is stopped at any
+// point the file contains either the old or the new data, but never just a part of it.
+func writeFileAtomic(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	file, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
+
 // Loads the oracle state from a human readable json file. Multiple
 // check are performed to ensure the state is valid such as checking
 // the hash of the state and ensuring the configuation has not changed
-- 
2.43.0


From e640ec486c3978053907f28f7925a43cd5c0de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 06/24] fix: apply a scheduled fee change only once the other
 parameters of the block were validated

---
 oracle/oracle.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 7a49a49..f99118b 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -466,21 +466,6 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 		return errors.New("more than one event of the same type in the same block, weird")
 	}
 
-	// If an UpdatePoolFee event is found, check if it's expected in the fee schedule.
-	// If expected, apply the new fee from the event. If not, crash.
-	if len(fullBlock.Events.UpdatePoolFee) != 0 {
-		slot := uint64(fullBlock.ConsensusDuty.Slot)
-		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
-		expectedFee, expected := getFeeSchedule(config.Network)[slot]
-		if !expected || expectedFee != newFee {
-			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
-				slot, newFee, expectedFee, expected))
-		}
-		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
-		config.PoolFeesPercentOver10000 = newFee
-		or.state.PoolFeesPercentOver10000 = newFee
-	}
-
 	if len(fullBlock.Events.PoolFeeRecipient) != 0 && !utils.Equals(config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()) {
 		return errors.New(fmt.Sprintf("pool fee recipient has changed. config: %s, block: %s",
 			config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()))
@@ -496,6 +481,21 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			config.CollateralInWei, fullBlock.Events.UpdateSubscriptionCollateral[0].NewSubscriptionCollateral))
 	}
 
+	// If an UpdatePoolFee event is found, check if it's expected in the fee schedule.
+	// If expected, apply the new fee from the event. If not, crash.
+	if len(fullBlock.Events.UpdatePoolFee) != 0 {
+		slot := uint64(fullBlock.ConsensusDuty.Slot)
+		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
+		expectedFee, expected := getFeeSchedule(config.Network)[slot]
+		if !expected || expectedFee != newFee {
+			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
+				slot, newFee, expectedFee, expected))
+		}
+		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
+		config.PoolFeesPercentOver10000 = newFee
+		or.state.PoolFeesPercentOver10000 = newFee
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c7a6eae4d346d3f8ad12ed5c8c6d2f4981c27a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 07/24] fix: load a state from before a scheduled fee change
 also after a more recent one was loaded

---
 oracle/oracle.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index f99118b..1ebc782 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -38,6 +38,9 @@ type Oracle struct {
 	mutex                    sync.RWMutex
 	getSetOfValidators       GetSetOfValidatorsFunc
 	getPendingConsolidations GetPendingConsolidationsFunc
+
+	// Fee of the pool before any scheduled fee change
+	initialPoolFee int
 }
 
 // Rewards calculation methods. Different methods on how
@@ -98,6 +101,7 @@ func NewOracle(cfg *Config) *Oracle {
 		state:                    state,
 		getSetOfValidators:       nil,
 		getPendingConsolidations: nil,
+		initialPoolFee:           cfg.PoolFeesPercentOver10000,
 	}
 
 	return oracle
@@ -671,10 +675,13 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
 		// The config starts at initialPoolFee. If the state was saved after a
 		// scheduled fee change, apply the schedule up to the state's slot.
-		applyFeeScheduleUpTo(or.cfg, state.LatestProcessedSlot)
-		if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
+		// Note that a more recent state may have been loaded before this one.
+		expectedCfg := *or.cfg
+		expectedCfg.PoolFeesPercentOver10000 = or.initialPoolFee
+		applyFeeScheduleUpTo(&expectedCfg, state.LatestProcessedSlot)
+		if state.PoolFeesPercentOver10000 != expectedCfg.PoolFeesPercentOver10000 {
 			return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
-				state.PoolFeesPercentOver10000, or.cfg.PoolFeesPercentOver10000))
+				state.PoolFeesPercentOver10000, expectedCfg.PoolFeesPercentOver10000))
 		}
 	}
 
@@ -698,6 +705,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.DeployedSlot, or.cfg.DeployedSlot))
 	}
 
+	or.cfg.PoolFeesPercentOver10000 = state.PoolFeesPercentOver10000
 	or.state = &state
 
 	mRoot, enoughData := or.getMerkleRootIfAny()
-- 
2.43.0


From 85087c1f55fa57c59103c41e6d30516d9118cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 08/24] fix: report a receipt that does not match its
 transaction as an error, GetProposerTip returned a nil tip without one

---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 20e4675..0313ba7 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -494,7 +494,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
-- 
2.43.0


From fa891f32ab9bc538fd0b5f4f07391233eb053a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 09/24] fix: return an error when the transaction that submits
 a report reverts, it was taken for a success

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1419d49..154081a 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1811,7 +1811,7 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 				tx.Hash().Hex()))
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
-		return errors.Wrap(err,
+		return errors.New(
 			fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
 	}
 
-- 
2.43.0


From 4c2877c72f672ace373a02bb712aac48513016c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 10/24] fix: return an error when the clients are on different
 chains, NewOnchain returned nil without one

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 154081a..62dbb18 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -110,7 +110,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		" DepositContract: ", "0x"+hex.EncodeToString(depositContract.Data.Address[:]))
 
 	if depositContract.Data.ChainID != uint64(chainId.Int64()) {
-		return nil, errors.Wrap(err, fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
+		return nil, errors.New(fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
 			depositContract.Data.ChainID, chainId))
 	}
 
-- 
2.43.0


From cf3b9b6e3c0847fb9f865cf7a43e4268db74a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 11/24] fix: a block whose fee recipient is the pool pays the
 pool, whoever sends its last transaction

---
 oracle/block.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index 0313ba7..2aa02fb 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -411,7 +411,9 @@ func (b *FullBlock) GetSentRewardAndType(
 	// i) check if mev reward (first as its cheaper to check)
 	mevReward, mevPresent, mevRecipient := b.MevRewardInWei()
 
-	if mevPresent {
+	// If the fee recipient of the block is the pool, the pool got its tips and its a vanila block, no
+	// matter what a whitelisted builder sends to whom in the last tx
+	if mevPresent && !utils.Equals(b.GetFeeRecipient(), poolAddress) {
 		// there is mev, store its value and set type
 		txType = MevBlock
 		reward = mevReward
@@ -565,8 +567,8 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	// We need to filter out mev rewards
 	mevReward, isMev, mevRec := b.MevRewardInWei()
 
-	// If no mev reward or mev reward but not to the pool
-	if !isMev || !utils.Equals(mevRec, poolAddress) {
+	// If no mev reward or mev reward but not to the pool or a vanila block to the pool
+	if !isMev || !utils.Equals(mevRec, poolAddress) || utils.Equals(b.GetFeeRecipient(), poolAddress) {
 		// In this case we dont expect any etherReceived event due to MEV
 		// All events are donations
 		return b.Events.EtherReceived
-- 
2.43.0


From c1d665e8fb72d75e4c9a91ab484ba5bd75498adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 12/24] fix: a missing or misplaced proposal duty is an error,
 also in epoch 0, instead of a crash or another slot's duty

---
 oracle/onchain.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 62dbb18..2a1b6fc 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -485,10 +485,10 @@ func (o *Onchain) GetProposalDuty(slot uint64, opts ...retry.Option) (*v1.Propos
 	slotStr := strconv.FormatUint(slot, 10)
 
 	// If cache hit, return the result
-	if ProposalDutyCache.Epoch == epoch {
+	if ProposalDutyCache.Epoch == epoch && len(ProposalDutyCache.Duties) != 0 {
 		// Sanity check that should never happen
-		if ProposalDutyCache.Epoch != uint64(ProposalDutyCache.Duties[slotWithinEpoch].Slot/phase0.Slot(constants.SlotsInEpoch)) {
-			return nil, errors.New("Proposal duty epoch does not match when converting slot to epoch")
+		if uint64(ProposalDutyCache.Duties[slotWithinEpoch].Slot) != slot {
+			return nil, errors.New("Cached proposal duty does not match the requested slot " + slotStr)
 		}
 		return ProposalDutyCache.Duties[slotWithinEpoch], nil
 	}
@@ -515,6 +515,11 @@ func (o *Onchain) GetProposalDuty(slot uint64, opts ...retry.Option) (*v1.Propos
 		return nil, errors.New("Error fetching proposal duties at slot " + slotStr + ": " + err.Error())
 	}
 
+	// The duties of all the slots of the epoch are expected, in order
+	if uint64(len(duties.Data)) != constants.SlotsInEpoch || uint64(duties.Data[slotWithinEpoch].Slot) != slot {
+		return nil, errors.New("Proposal duties do not match the requested slot " + slotStr)
+	}
+
 	// If success, store result in cache
 	ProposalDutyCache = EpochDuties{epoch, duties.Data}
 
-- 
2.43.0


From 91f26018895c0bdfd9793ce5cb9a9f502ab44a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 13/24] fix: an event log that cannot be read is an error
 instead of silently ending the list of events

---
 api/api.go        |  6 ++++++
 oracle/onchain.go | 27 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/api/api.go b/api/api.go
index 8c42474..236c0ff 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1142,6 +1142,9 @@ func (m *ApiService) GetSubscriptionsTillHead(latestProcessedBlock uint64) ([]Su
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
 	}
+	if err = itrSubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the events")
+	}
 	return blockSubscriptions, nil
 }
 
@@ -1167,6 +1170,9 @@ func (m *ApiService) GetUnsubscriptionsTillHead(latestProcessedBlock uint64) ([]
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
 	}
+	if err = itrUnsubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the events")
+	}
 	return blockUnsubscriptions, nil
 }
 
diff --git a/oracle/onchain.go b/oracle/onchain.go
index 2a1b6fc..1aceb1d 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1331,6 +1331,9 @@ func (o *Onchain) GetEtherReceivedEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close EtherReceived iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the EtherReceived events")
+	}
 	return events, nil
 }
 
@@ -1367,6 +1370,9 @@ func (o *Onchain) GetSubscribeValidatorEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close SubscribeValidator iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the SubscribeValidator events")
+	}
 	return events, nil
 }
 
@@ -1422,6 +1428,9 @@ func (o *Onchain) GetUnsubscribeValidatorEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnsubscribeValidator iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the UnsubscribeValidator events")
+	}
 	return events, nil
 }
 
@@ -1458,6 +1467,9 @@ func (o *Onchain) GetBanValidatorEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close BanValidator iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the BanValidator events")
+	}
 	return events, nil
 }
 
@@ -1494,6 +1506,9 @@ func (o *Onchain) GetUnbanValidatorEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnbanValidator iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the UnbanValidator events")
+	}
 	return events, nil
 }
 
@@ -1539,6 +1554,9 @@ func (o *Onchain) GetUpdatePoolFeeEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFee iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the ContractUpdatePoolFee events")
+	}
 	return events, nil
 }
 func (o *Onchain) GetPoolFeeRecipientEvents(
@@ -1574,6 +1592,9 @@ func (o *Onchain) GetPoolFeeRecipientEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFeeRecipient iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the ContractUpdatePoolFeeRecipient events")
+	}
 	return events, nil
 }
 func (o *Onchain) GetCheckpointSlotSizeEvents(
@@ -1609,6 +1630,9 @@ func (o *Onchain) GetCheckpointSlotSizeEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateCheckpointSlotSize iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the ContractUpdateCheckpointSlotSize events")
+	}
 	return events, nil
 }
 func (o *Onchain) GetUpdateSubscriptionCollateralEvents(
@@ -1644,6 +1668,9 @@ func (o *Onchain) GetUpdateSubscriptionCollateralEvents(
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateSubscriptionCollateral iterator")
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not read all the ContractUpdateSubscriptionCollateral events")
+	}
 	return events, nil
 }
 func (o *Onchain) GetSubmitReportEvents(
-- 
2.43.0


From 45fae1bef6be75dfa495801c657f7bbeb2f33c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 14/24] fix: statistics divided by zero when every subscribed
 validator is in red card

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 236c0ff..be1eb42 100644
--- a/api/api.go
+++ b/api/api.go
@@ -352,7 +352,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	rewardsPerValidatorPer30Days := big.NewInt(0)
 	totalValidatorsEarning := totalActive + totalYellowCard
-	if totalSubscribed != 0 {
+	if totalValidatorsEarning != 0 {
 		// This metric can be biased if multiple validators exit at once within the month
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
-- 
2.43.0


From e328ee6d96c5107074c6d97af568a040deae661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 15/24] fix: the status endpoint crashed on an empty sync
 answer without an error

---
 api/api.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/api.go b/api/api.go
index be1eb42..9d8c54d 100644
--- a/api/api.go
+++ b/api/api.go
@@ -438,12 +438,12 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 	}
 
 	consSync, err := m.Onchain.ConsensusClient.NodeSyncing(context.Background(), &eth2.NodeSyncingOpts{})
-	if consSync == nil || err != nil {
-		m.respondError(w, http.StatusInternalServerError, "could not get consensus sync progress or result is nil: "+err.Error())
+	if err != nil {
+		m.respondError(w, http.StatusInternalServerError, "could not get consensus sync progress: "+err.Error())
 		return
 	}
 
-	if consSync.Data == nil {
+	if consSync == nil || consSync.Data == nil {
 		m.respondError(w, http.StatusInternalServerError, "consensus sync progress data is nil")
 		return
 	}
-- 
2.43.0


From 315c6174238b401d84aba1b88fa5f21d1c27fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 16/24] fix: validator keys with non hexadecimal characters
 were accepted

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 9d8c54d..f4bb8fb 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1100,7 +1100,7 @@ func IsValidAddress(v string) bool {
 }
 
 func IsValidPubkey(v string) bool {
-	re := regexp.MustCompile("^0x[0-9a-fA-f]{96}$")
+	re := regexp.MustCompile("^0x[0-9a-fA-F]{96}$")
 	return re.MatchString(v)
 }
 
-- 
2.43.0


From 62b55125edb71830b43738f7848b0d672eeada19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 17/24] fix: the request for the validators of an address
 crashed on a subscription of an unknown validator

---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index f4bb8fb..81ac7ad 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1222,7 +1222,8 @@ func (m *ApiService) ApplyNonFinalizedState(
 				eventAddress := subInBlock.Event.Sender.String()
 				if AreAddressEqual(valWithdrawalAddress, eventAddress) {
 					if subInBlock.Event.SubscriptionCollateral.Cmp(m.cfg.CollateralInWei) >= 0 {
-						if oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
+						// The validator may be unknown if it appeared after they were last refreshed
+						if subInBlock.Validator != nil && oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
 							if val.ValidatorStatus == oracle.Untracked || val.ValidatorStatus == oracle.NotSubscribed {
 								validators[valIndex].ValidatorStatus = oracle.Active
 								validators[valIndex].PendingRewardsWei.Add(validators[valIndex].PendingRewardsWei, subInBlock.Event.SubscriptionCollateral)
-- 
2.43.0


From a6a4eab0f16ec125bca22e36558391bb768a2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 18/24] fix: requests of the api read the state while slots
 were processed (concurrent map access, mixed slots)

---
 api/api.go       | 102 +++++++++++++++++++++++++++--------------------
 oracle/oracle.go |  40 ++++++++++++++++++-
 2 files changed, 97 insertions(+), 45 deletions(-)

diff --git a/api/api.go b/api/api.go
index 81ac7ad..9b28aac 100644
--- a/api/api.go
+++ b/api/api.go
@@ -282,7 +282,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalAccumulatedRewards := big.NewInt(0)
 	totalPendingRewards := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().Validators {
+	state := m.oracle.Snapshot()
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active {
 			totalActive++
 		} else if validator.ValidatorStatus == oracle.YellowCard {
@@ -305,19 +306,19 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalDonationsWei := big.NewInt(0)
 
 	// Prevent underflow
-	if uint64(m.oracle.State().LatestProcessedSlot) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedSlot) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head slot is lower than slots in a month, this should not happen")
 		return
 	}
 
-	if uint64(m.oracle.State().LatestProcessedBlock) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedBlock) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head block is lower than slots in a month, this should not happen")
 		return
 	}
 
 	// Only consider blocks in the last 30 days
-	limitSlot := uint64(m.oracle.State().LatestProcessedSlot) - SlotsInOneMonth
-	limitBlock := uint64(m.oracle.State().LatestProcessedBlock) - SlotsInOneMonth
+	limitSlot := uint64(state.LatestProcessedSlot) - SlotsInOneMonth
+	limitBlock := uint64(state.LatestProcessedBlock) - SlotsInOneMonth
 
 	// Note that in a month we have SlotsInOneMonth slots, but not exactly that amount of blocks. If blocks
 	// are missed we can have less. If blocks are missed we will take into account a time window
@@ -325,7 +326,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	totalOkPoolProposalBlocks := uint64(0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		// only consider ok pool proposals, since these are the only type of blocks that are shared
 		// across all validators
 		if block.BlockType == oracle.OkPoolProposal {
@@ -339,7 +340,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		}
 	}
 
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range state.Donations {
 		totalDonationsWei.Add(totalDonationsWei, donation.DonationAmount)
 
 		// Note that rewards also take donations into account
@@ -357,7 +358,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
 
-	totalProposedBlocks := uint64(len(m.oracle.State().ProposedBlocks))
+	totalProposedBlocks := uint64(len(state.ProposedBlocks))
 	avgBlockRewardWei := big.NewInt(0)
 
 	// Avoid division by zero
@@ -369,7 +370,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalEffectiveBalance := uint64(0)
 	effectiveBalances := m.Onchain.Validators()
 
-	for _, validator := range m.oracle.State().Validators {
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active ||
 			validator.ValidatorStatus == oracle.YellowCard ||
 			validator.ValidatorStatus == oracle.RedCard {
@@ -395,8 +396,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRedCard:                 totalRedCard,
 		TotalBanned:                  totalBanned,
 		TotalNotSubscribed:           totalNotSubscribed,
-		LatestCheckpointSlot:         m.oracle.State().LatestProcessedSlot,
-		NextCheckpointSlot:           m.oracle.State().LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
+		LatestCheckpointSlot:         state.LatestProcessedSlot,
+		NextCheckpointSlot:           state.LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
 		TotalAccumulatedRewardsWei:   totalAccumulatedRewards.String(),
 		TotalPendingRewaradsWei:      totalPendingRewards.String(),
 		TotalRewardsSentWei:          totalRewardsSentWei.String(),
@@ -405,8 +406,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRewardsSent30DaysWei:    totalRewardsSent30DaysWei.String(),
 		RewardsPerValidatorPer30Days: rewardsPerValidatorPer30Days.String(),
 		TotalProposedBlocks:          totalProposedBlocks,
-		TotalMissedBlocks:            uint64(len(m.oracle.State().MissedBlocks)),
-		TotalWrongFeeBlocks:          uint64(len(m.oracle.State().WrongFeeBlocks)),
+		TotalMissedBlocks:            uint64(len(state.MissedBlocks)),
+		TotalWrongFeeBlocks:          uint64(len(state.WrongFeeBlocks)),
 		TotalEffectiveBalanceGwei:    fmt.Sprintf("%d", totalEffectiveBalance),
 		AvgEffectiveBalanceGwei:      fmt.Sprintf("%d", avgEffectiveBalance),
 	})
@@ -463,7 +464,8 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 	finalizedSlot := uint64(finality.Header.Message.Slot)
 
 	oracleSync := false
-	if m.oracle.State().LatestProcessedSlot-finalizedSlot == 0 {
+	state := m.oracle.Snapshot()
+	if state.LatestProcessedSlot-finalizedSlot == 0 {
 		oracleSync = true
 	}
 
@@ -484,11 +486,11 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		IsConsensusInSync:           consInSync,
 		IsExecutionInSync:           execInSync,
 		IsOracleInSync:              oracleSync,
-		LatestProcessedSlot:         m.oracle.State().LatestProcessedSlot,
-		LatestProcessedBlock:        m.oracle.State().LatestProcessedBlock,
+		LatestProcessedSlot:         state.LatestProcessedSlot,
+		LatestProcessedBlock:        state.LatestProcessedBlock,
 		LatestFinalizedEpoch:        finalizedSlot / 32,
 		LatestFinalizedSlot:         finalizedSlot,
-		OracleHeadDistance:          finalizedSlot - m.oracle.State().LatestProcessedSlot,
+		OracleHeadDistance:          finalizedSlot - state.LatestProcessedSlot,
 		NextCheckpointSlot:          onchainSlot + m.cfg.CheckPointSizeInSlots,
 		NextCheckpointTime:          "", // TODO:
 		NextCheckpointRemaining:     utils.SlotsToTime(nextCheckpointInSlots, constants.SecondsInSlot),
@@ -527,7 +529,8 @@ func (m *ApiService) handleMemoryValidators(w http.ResponseWriter, req *http.Req
 		m.respondError(w, http.StatusServiceUnavailable, "Oracle node is currently syncing and not serving requests")
 		return
 	}
-	validators := maps.Values(m.oracle.State().Validators)
+	state := m.oracle.Snapshot()
+	validators := maps.Values(state.Validators)
 
 	// Order by index
 	sort.Slice(validators, func(i, j int) bool { return validators[i].ValidatorIndex < validators[j].ValidatorIndex })
@@ -572,7 +575,8 @@ func (m *ApiService) handleMemoryValidatorInfo(w http.ResponseWriter, req *http.
 		return
 	}
 
-	validator, found := m.oracle.State().Validators[valIndex]
+	state := m.oracle.Snapshot()
+	validator, found := state.Validators[valIndex]
 	if !found {
 		m.respondError(w, http.StatusBadRequest, fmt.Sprint("could not find validator with index: ", valIndex))
 		return
@@ -618,9 +622,11 @@ func (m *ApiService) handleMemoryValidatorsByIndex(w http.ResponseWriter, req *h
 	var foundValidators []httpOkValidatorInfo
 	var notFoundValidators []uint64
 
+	state := m.oracle.Snapshot()
+
 	// Check if each validator is in the oracle state. Append to foundValidators or notFoundValidators
 	for _, index := range indices {
-		if validator, found := m.oracle.State().Validators[index]; found {
+		if validator, found := state.Validators[index]; found {
 			// Convert ValidatorInfo to httpOkValidatorInfo. This is done to return strings instead of bigInts
 			beaconState, found := m.Onchain.Validators()[phase0.ValidatorIndex(validator.ValidatorIndex)]
 			if !found {
@@ -717,8 +723,10 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// 2) Get all tracked validators for that withdrawal address (tracked)
 	validatorsCopy := make(map[uint64]*oracle.ValidatorInfo)
 
+	state := m.oracle.Snapshot()
+
 	// Imporant! This is a deep copy, otherwise we will modify the state
-	utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy)
+	utils.DeepCopy(state.Validators, &validatorsCopy)
 	for valIndex, validator := range validatorsCopy {
 		// Just overwrite the untracked validators with oracle state
 		if AreAddressEqual(validator.WithdrawalAddress, withdrawalAddress) {
@@ -745,12 +753,12 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// This applies a non-finalized state to the validators, creating a virtual state
 	// only used for the api.
 
-	if m.oracle.State().LatestProcessedBlock == 0 {
+	if state.LatestProcessedBlock == 0 {
 		m.respondError(w, http.StatusInternalServerError, "latest processed block is 0, try again later")
 		return
 	}
 
-	firstNotProcessedBlock := m.oracle.State().LatestProcessedBlock + 1
+	firstNotProcessedBlock := state.LatestProcessedBlock + 1
 
 	// TODO: Cache this, very inneficient to get it every time
 	allSubsTillHead, err := m.GetSubscriptionsTillHead(firstNotProcessedBlock)
@@ -800,10 +808,11 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 }
 
 func (m *ApiService) handleMemoryFeesInfo(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.Snapshot()
 	m.respondOK(w, httpOkMemoryFeesInfo{
-		PoolFeesPercentOver10000: m.oracle.State().PoolFeesPercentOver10000,
-		PoolFeesAddress:          m.oracle.State().PoolFeesAddress,
-		PoolAccumulatedFees:      m.oracle.State().PoolAccumulatedFees.String(),
+		PoolFeesPercentOver10000: state.PoolFeesPercentOver10000,
+		PoolFeesAddress:          state.PoolFeesAddress,
+		PoolAccumulatedFees:      state.PoolAccumulatedFees.String(),
 	})
 }
 
@@ -811,7 +820,8 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 	// Concat all the blocks, order is not guaranteed
 	allBlocks := make([]httpOkBlock, 0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.ProposedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -824,7 +834,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range state.MissedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -837,7 +847,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range state.WrongFeeBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -855,7 +865,8 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 
 func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http.Request) {
 	proposedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().ProposedBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.ProposedBlocks {
 		proposedBlocks = append(proposedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -872,7 +883,8 @@ func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.Request) {
 	missedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().MissedBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.MissedBlocks {
 		missedBlocks = append(missedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -889,7 +901,8 @@ func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.R
 
 func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http.Request) {
 	wrongFeeBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.WrongFeeBlocks {
 		wrongFeeBlocks = append(wrongFeeBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -906,7 +919,8 @@ func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryDonations(w http.ResponseWriter, req *http.Request) {
 	donations := make([]httpOkDonation, 0)
-	for _, donation := range m.oracle.State().Donations {
+	state := m.oracle.Snapshot()
+	for _, donation := range state.Donations {
 		donations = append(donations, httpOkDonation{
 			AmountWei: donation.DonationAmount.String(),
 			Block:     donation.Raw.BlockNumber,
@@ -940,29 +954,30 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 		return
 	}
 
-	_, found := m.oracle.State().CommitedStates[contractSlot]
+	state := m.oracle.Snapshot()
+	_, found := state.CommitedStates[contractSlot]
 	if !found {
 		m.respondError(w, http.StatusInternalServerError, "could not find onchain slot in oracle state: "+strconv.FormatUint(contractSlot, 10))
 		return
 	}
 
 	// Check if the oracle root matches the one offchain
-	if contractRoot != m.oracle.State().CommitedStates[contractSlot].MerkleRoot {
+	if contractRoot != state.CommitedStates[contractSlot].MerkleRoot {
 		m.respondError(w, http.StatusInternalServerError,
 			"contract merkle root does not match oracle state: "+
-				contractRoot+" vs "+m.oracle.State().CommitedStates[contractSlot].MerkleRoot)
+				contractRoot+" vs "+state.CommitedStates[contractSlot].MerkleRoot)
 		return
 	}
 
 	// Get the proofs of this withdrawal address (to be used onchain to claim rewards)
-	proofs, proofFound := m.oracle.State().CommitedStates[contractSlot].Proofs[withdrawalAddress]
+	proofs, proofFound := state.CommitedStates[contractSlot].Proofs[withdrawalAddress]
 	if !proofFound {
 		m.respondError(w, http.StatusBadRequest, "could not find proof for WithdrawalAddress: "+withdrawalAddress)
 		return
 	}
 
 	// Get the leafs of this withdrawal address (to be used onchain to claim rewards)
-	leafs, leafsFound := m.oracle.State().CommitedStates[contractSlot].Leafs[withdrawalAddress]
+	leafs, leafsFound := state.CommitedStates[contractSlot].Leafs[withdrawalAddress]
 	if !leafsFound {
 		m.respondError(w, http.StatusBadRequest, "could not find leafs for WithdrawalAddress: "+withdrawalAddress)
 		return
@@ -970,7 +985,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	// Get validators that are registered to this withdrawal address in the pool
 	registeredValidators := make([]uint64, 0)
-	for valIndex, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for valIndex, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			registeredValidators = append(registeredValidators, valIndex)
 		}
@@ -984,7 +999,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	totalPending := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for _, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			totalPending.Add(totalPending, validator.PendingRewardsWei)
 		}
@@ -993,8 +1008,8 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 	m.respondOK(w, httpOkProofs{
 		LeafWithdrawalAddress:      leafs.WithdrawalAddress,
 		LeafAccumulatedBalance:     leafs.AccumulatedBalanceWei.String(),
-		MerkleRoot:                 m.oracle.State().CommitedStates[contractSlot].MerkleRoot,
-		CheckpointSlot:             m.oracle.State().CommitedStates[contractSlot].Slot,
+		MerkleRoot:                 state.CommitedStates[contractSlot].MerkleRoot,
+		CheckpointSlot:             state.CommitedStates[contractSlot].Slot,
 		Proofs:                     proofs,
 		RegisteredValidators:       registeredValidators,
 		TotalAccumulatedRewardsWei: leafs.AccumulatedBalanceWei.String(),
@@ -1270,7 +1285,8 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 		return false
 	}
 
-	slotsFromFinalized := finalizedSlot - m.oracle.State().LatestProcessedSlot
+	state := m.oracle.Snapshot()
+	slotsFromFinalized := finalizedSlot - state.LatestProcessedSlot
 
 	// Use this if we want full in sync to latest finalized
 	/*oracleInSync := false
diff --git a/oracle/oracle.go b/oracle/oracle.go
index 1ebc782..5ae44d2 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -123,6 +123,42 @@ func (or *Oracle) State() *OracleState {
 	return or.state
 }
 
+// Returns a copy of the state that does not change while new slots are processed, to be
+// used from other goroutines. What is only appended to or replaced, but never modified
+// once stored (blocks, events, commited states) is shared with the state.
+func (or *Oracle) Snapshot() *OracleState {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return or.snapshotLockFree()
+}
+
+func (or *Oracle) snapshotLockFree() *OracleState {
+	copyBig := func(x *big.Int) *big.Int {
+		if x == nil {
+			return nil
+		}
+		return new(big.Int).Set(x)
+	}
+
+	snapshot := *or.state
+	snapshot.PoolAccumulatedFees = copyBig(or.state.PoolAccumulatedFees)
+
+	snapshot.Validators = make(map[uint64]*ValidatorInfo, len(or.state.Validators))
+	for valIndex, validator := range or.state.Validators {
+		validatorCopy := *validator
+		validatorCopy.AccumulatedRewardsWei = copyBig(validator.AccumulatedRewardsWei)
+		validatorCopy.PendingRewardsWei = copyBig(validator.PendingRewardsWei)
+		validatorCopy.CollateralWei = copyBig(validator.CollateralWei)
+		snapshot.Validators[valIndex] = &validatorCopy
+	}
+
+	snapshot.CommitedStates = make(map[uint64]*OnchainState, len(or.state.CommitedStates))
+	for slot, commitedState := range or.state.CommitedStates {
+		snapshot.CommitedStates[slot] = commitedState
+	}
+	return &snapshot
+}
+
 // Returns wether a checkpoint has been reached or not. A checkpoint is reached
 // when CheckPointSizeInSlots have passed from the last checkpoint
 func (or *Oracle) IsCheckpoint() (bool, error) {
@@ -147,7 +183,7 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 	return false, nil
 }
 
-// Returns the state of the oracle, recalculating the hash of the state for
+// Returns a copy of the state of the oracle, recalculating the hash of the state for
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
@@ -158,7 +194,7 @@ func (or *Oracle) StateWithHash() (*OracleState, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	return or.state, nil
+	return or.snapshotLockFree(), nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
-- 
2.43.0


From 394b9e2fec222f72d556bc257221d4aea4276b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 19/24] fix: the validators of the beacon chain were replaced
 while requests of the api read them

---
 oracle/onchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1aceb1d..39798e5 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -11,6 +11,7 @@ import (
 	normalHttp "net/http"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/pkg/errors"
@@ -73,6 +74,7 @@ type Onchain struct {
 	PoolAddress     string
 	ChainId         uint64
 	validators      map[phase0.ValidatorIndex]*v1.Validator
+	validatorsMutex sync.RWMutex
 }
 
 func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchain, error) {
@@ -1867,7 +1869,9 @@ func (o *Onchain) RefreshBeaconValidators() {
 	if err != nil {
 		log.Fatal("Could not get validators: ", err)
 	}
+	o.validatorsMutex.Lock()
 	o.validators = vals
+	o.validatorsMutex.Unlock()
 	if len(vals) != 0 {
 		log.WithFields(log.Fields{
 			"TotalValidators":       len(vals),
@@ -1880,6 +1884,8 @@ func (o *Onchain) RefreshBeaconValidators() {
 }
 
 func (o *Onchain) Validators() map[phase0.ValidatorIndex]*v1.Validator {
+	o.validatorsMutex.RLock()
+	defer o.validatorsMutex.RUnlock()
 	return o.validators
 }
 
-- 
2.43.0


From 0e9dd86033042dc177705e5e361eade09f5253fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 20/24] fix: the configuration was served while a scheduled
 change of the fee was applied to it

---
 api/api.go       | 2 +-
 oracle/oracle.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 9b28aac..b74a40f 100644
--- a/api/api.go
+++ b/api/api.go
@@ -517,7 +517,7 @@ func (m *ApiService) handleConfig(w http.ResponseWriter, req *http.Request) {
 		PoolAddress:              m.cfg.PoolAddress,
 		DeployedSlot:             m.cfg.DeployedSlot,
 		CheckPointSizeInSlots:    m.cfg.CheckPointSizeInSlots,
-		PoolFeesPercentOver10000: m.cfg.PoolFeesPercentOver10000,
+		PoolFeesPercentOver10000: m.oracle.PoolFeesPercentOver10000(),
 		PoolFeesAddress:          m.cfg.PoolFeesAddress,
 		DryRun:                   m.cfg.DryRun,
 		CollateralInWei:          m.cfg.CollateralInWei.String(),
diff --git a/oracle/oracle.go b/oracle/oracle.go
index 5ae44d2..49ce647 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -159,6 +159,13 @@ func (or *Oracle) snapshotLockFree() *OracleState {
 	return &snapshot
 }
 
+// Returns the pool fee in use, which changes when a slot with a scheduled change of the fee is processed
+func (or *Oracle) PoolFeesPercentOver10000() int {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return or.cfg.PoolFeesPercentOver10000
+}
+
 // Returns wether a checkpoint has been reached or not. A checkpoint is reached
 // when CheckPointSizeInSlots have passed from the last checkpoint
 func (or *Oracle) IsCheckpoint() (bool, error) {
-- 
2.43.0


From 3881bacebd107ace301b4d4b5fe1d50ea4d6c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 21/24] fix: the claims of the pool fee address were counted
 twice when it is also a withdrawal address

The reconciliation with the contract looked up the claims of the fee address once as the withdrawal
address of a validator and once as the fee address, so it failed (or stopped the oracle, if both are
written in the same case) as soon as that address had claimed anything.
---
 oracle/oracle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 49ce647..9bd263e 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -1049,7 +1049,12 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 		}
 	}
 
-	// Include also the pool address
+	// Include also the pool address, unless its also the withdrawal address of a validator
+	for _, u := range uniqueWithAdd {
+		if utils.Equals(or.State().PoolFeesAddress, u) {
+			return uniqueWithAdd
+		}
+	}
 	uniqueWithAdd = append(uniqueWithAdd, or.State().PoolFeesAddress)
 
 	return uniqueWithAdd
-- 
2.43.0


From 9dd41e4723b661cfb14516fafa9f696708346bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 22/24] fix: only an answer with status 404 means that a slot
 has no block

The text of any other error was searched for 404. It includes the url and with it
the slot, so a timeout or refused connection at slot 7404123 made the slot a missed
block: its proposer got a yellow or red card, and the oracle disagreed with the others.
---
 oracle/onchain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 39798e5..98b576c 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -229,7 +229,10 @@ func (o *Onchain) GetConsensusBlockAtSlot(slot uint64, opts ...retry.Option) (*s
 			// Its not possible to detect if the block was missed or if the block doesn't exist in the chain
 			// GET failed with status 404: {"code":404,"message":"NOT_FOUND: beacon block at slot 7408169","stacktraces":[]}
 			// To keep compatibility after go-eth2-client changes, we consider that a missed block is nil
-			if strings.Contains(err.Error(), "404") {
+			// Note that only the status counts: the text of any other error may contain a 404, as it
+			// includes the url, and with it the slot (e.g. 7404123)
+			var apiErr *api.Error
+			if errors.As(err, &apiErr) && apiErr.StatusCode == normalHttp.StatusNotFound {
 				signedBeaconBlock = &api.Response[*spec.VersionedSignedBeaconBlock]{
 					Data: nil,
 				}
-- 
2.43.0


From 04649733facf301b93ede72900207f444407d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 23/24] fix: a failed report whose receipt arrived at the
 deadline counted as accepted

errors.Wrap of a nil error is nil, so when the context expired right after the receipt
was received its status was never looked at.
---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 98b576c..9f52d93 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1842,7 +1842,7 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 
 	// It stops waiting when the context is canceled.
 	receipt, err := bind.WaitMined(ctx, o.ExecutionClient, tx)
-	if ctx.Err() != nil {
+	if err != nil {
 		return errors.Wrap(err,
 			fmt.Sprint("timeout expired waiting for tx to be validated txHash: ",
 				tx.Hash().Hex()))
-- 
2.43.0


From 486748750f8a03acdf0bee12c03e2974f967ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 24/24] fix: a checkpoint whose slot was processed before a
 stop was never frozen nor submitted

A stop signal between the processing of the slot of a checkpoint and the freezing of the checkpoint saves
a state at that slot without it. At the next start the loop went on with the next slot, so that the
checkpoint was skipped: the oracle never voted for it.
---
 main.go          |  9 ++++++++-
 oracle/oracle.go | 13 +++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 6b6b828..1f4e6ab 100644
--- a/main.go
+++ b/main.go
@@ -232,6 +232,10 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 		"NextSlotToProcess":   oracleInstance.State().NextSlotToProcess,
 	}).Info("Processing, see api for progress")
 
+	// The oracle may have been stopped once the slot of a checkpoint was processed but before the
+	// checkpoint was frozen. No more slots are processed until that checkpoint is done.
+	checkpointPending := oracleInstance.IsCheckpointPending()
+
 	for {
 		// Ensure that the nodes we are using are in sync with the blockchain (consensus + execution)
 		inSync, err := onchain.AreNodesInSync()
@@ -253,7 +257,10 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 		finalizedSlot := uint64(finalizedBlockHeader.Header.Message.Slot)
 
-		if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
+		if checkpointPending {
+			log.Info("Resuming the checkpoint of slot ", oracleInstance.State().LatestProcessedSlot)
+			checkpointPending = false
+		} else if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
 
 			// Fetch block information
 			fullBlock := onchain.FetchFullBlock(oracleInstance.State().NextSlotToProcess, oracleInstance)
diff --git a/oracle/oracle.go b/oracle/oracle.go
index 9bd263e..99d206c 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -190,6 +190,19 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 	return false, nil
 }
 
+// Returns wether the latest processed slot is a checkpoint that was not frozen, because the oracle was
+// stopped after processing the slot
+func (or *Oracle) IsCheckpointPending() bool {
+	isCheckpoint, err := or.IsCheckpoint()
+	if err != nil || !isCheckpoint {
+		return false
+	}
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	_, frozen := or.state.CommitedStates[or.state.LatestProcessedSlot]
+	return !frozen
+}
+
 // Returns a copy of the state of the oracle, recalculating the hash of the state for
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
-- 
2.43.0

