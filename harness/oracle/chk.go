package oracle

import (
	"math/big"
	"strings"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
)

func vCfg(deployed, size uint64) *Config {
	return &Config{Network: Mainnet, PoolAddress: vPool, DeployedSlot: deployed, DeployedBlock: 5, CheckPointSizeInSlots: size,
		PoolFeesPercentOver10000: 700, PoolFeesAddress: vPoolFee, CollateralInWei: big.NewInt(1)}
}

// vC09Alias: the pool's fee address is also the withdrawal address of a validator.
func vC09Alias() {
	st := vLedger(1, 1, 96)
	st.PoolFeesAddress = vSpell[0]
	got := NewMerklelizer().AggregateValidatorsIndexes(st)
	vReach("alias")
	seen := map[string]bool{}
	for _, l := range got {
		vAssert(!seen[l.WithdrawalAddress], "fee-address-is-withdrawal-address")
		seen[l.WithdrawalAddress] = true
	}
}

// vC09Pool: a validator whose withdrawal address is the pool contract must not stop the oracle.
func vC09Pool() {
	st := vLedger(1, 1, 96)
	st.Validators[vBase].WithdrawalAddress = vPool
	code := vTry(func() { NewMerklelizer().AggregateValidatorsIndexes(st) })
	vReach("pool")
	vAssert(code == 0, "pool-address-is-withdrawal-address")
}

func vCopyVal(v *ValidatorInfo) ValidatorInfo {
	c := *v
	c.AccumulatedRewardsWei = new(big.Int).Set(v.AccumulatedRewardsWei)
	c.PendingRewardsWei = new(big.Int).Set(v.PendingRewardsWei)
	c.CollateralWei = new(big.Int).Set(v.CollateralWei)
	return c
}

func vSameVal(a ValidatorInfo, b *ValidatorInfo, tag string) {
	vAssert(b != nil, tag+": validator kept")
	vAssert(a.ValidatorStatus == b.ValidatorStatus, tag+": status")
	vAssert(vEq(a.AccumulatedRewardsWei, b.AccumulatedRewardsWei), tag+": accumulated")
	vAssert(vEq(a.PendingRewardsWei, b.PendingRewardsWei), tag+": pending")
	vAssert(vEq(a.CollateralWei, b.CollateralWei), tag+": collateral")
	vAssert(vEqStr(a.WithdrawalAddress, b.WithdrawalAddress), tag+": withdrawal address")
	vAssert(vEqStr(a.ValidatorKey, b.ValidatorKey), tag+": key")
	vAssert(a.ValidatorIndex == b.ValidatorIndex, tag+": index")
	vAssert(a.SubscriptionType == b.SubscriptionType, tag+": subscription type")
}

// vC11Immutable: what was committed at a checkpoint does not change with later slots and checkpoints.
func vC11Immutable() {
	n := vParam("n", 2)
	e := vNewEnv(n, 0)
	vAssume(vAnd(e.slot != ExceptionSlotMainnet1, e.slot%1200 != 0, e.slot > 11649024))
	st := e.or.State()
	vals := map[uint64]ValidatorInfo{}
	for i, v := range st.Validators {
		vals[i] = vCopyVal(v)
	}
	fees := new(big.Int).Set(st.PoolAccumulatedFees)
	older := map[uint64]*OnchainState{}
	for k := 0; k < vParam("older", 0); k++ {
		older[uint64(1000+100*k)] = &OnchainState{Slot: uint64(1000 + 100*k)}
		st.CommitedStates[uint64(1000+100*k)] = older[uint64(1000+100*k)]
	}
	vAssert(e.or.FreezeCheckpoint(), "checkpoint committed")
	first := e.slot - 1
	c := st.CommitedStates[first]
	vAssert(c != nil, "committed under the last processed slot")
	vAssert(len(c.Validators) == n, "every validator is in the checkpoint")
	for i, v := range vals {
		vSameVal(v, c.Validators[i], "at the checkpoint")
	}
	root := c.MerkleRoot
	proofs := map[string]string{}
	for a, p := range c.Proofs {
		proofs[a] = strings.Join(p, ",")
	}
	// one more slot with any kind of block, a subscription, a ban
	proposer := vBase + uint64(vPick("proposer", n))
	fb := e.fullBlock(proposer, vCredOf(vAddrOf(7), 1))
	ev := &Events{}
	kind := []int{0, 1, 3}[vPick("kind", 3)]
	if kind != 0 {
		switch vPick("event", 4) {
		case 0:
			s := e.simpleSub(vBase)
			ev.SubscribeValidator = append(ev.SubscribeValidator, s.ev)
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.val)
		case 1:
			ev.BanValidator = append(ev.BanValidator, e.banEvent(vBase))
		case 2:
			ev.EtherReceived = append(ev.EtherReceived, e.ether(vBig("donation", 90)))
		}
	}
	e.propose(fb, kind, vBig("reward", 90), ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vAssert(e.or.FreezeCheckpoint(), "second checkpoint committed")
	vReach("immutable")
	st = e.or.State()
	vAssert(len(st.CommitedStates) == 2+len(older), "all checkpoints are kept")
	for k, o := range older {
		vAssert(st.CommitedStates[k] == o && o.Slot == k, "all checkpoints are kept")
	}
	d := st.CommitedStates[first]
	vAssert(d != nil && d.Slot == first, "first checkpoint kept")
	vAssert(vEqStr(d.MerkleRoot, root), "root unchanged")
	for i, v := range vals {
		vSameVal(v, d.Validators[i], "later")
		a := strings.ToLower(v.WithdrawalAddress)
		vAssert(vEqStr(strings.Join(d.Proofs[a], ","), proofs[a]), "proof unchanged")
		vAssert(vEq(d.Leafs[a].AccumulatedBalanceWei, v.AccumulatedRewardsWei), "leaf unchanged")
	}
	vAssert(vEq(d.Leafs[vPoolFee].AccumulatedBalanceWei, fees), "leaf of the pool unchanged")
	// the newest is the one served
	slot, any := e.or.LatestCommitedSlot()
	vAssert(vAnd(any, slot == e.slot), "latest committed slot is the newest")
	lc := e.or.LatestCommitedState()
	vAssert(lc == st.CommitedStates[e.slot], "latest committed state is the newest")
	for i, v := range st.Validators {
		vSameVal(vCopyVal(v), lc.Validators[i], "newest")
	}
	want := []RawLeaf{}
	if vParam("verify", 0) == 1 {
		want = vExpectLeaves(st)
	}
	vAssert(len(want) == 0 || len(lc.Leafs) == len(want) && len(lc.Proofs) == len(want), "the newest has a leaf and a proof for every address")
	for _, w := range want {
		l, found := lc.Leafs[w.WithdrawalAddress]
		vAssert(found, "leaf of the newest")
		vAssert(vAnd(vEqStr(l.WithdrawalAddress, w.WithdrawalAddress), vEq(l.AccumulatedBalanceWei, w.AccumulatedBalanceWei)), "leaf of the newest")
		vAssert(vVerify(lc.MerkleRoot, vLeafHash(w), lc.Proofs[w.WithdrawalAddress]), "the newest proof verifies against the newest root")
	}
	// and it shares no storage with the live state
	for i, v := range st.Validators {
		vAssert(v != lc.Validators[i], "checkpoint shares no storage")
		before := new(big.Int).Set(lc.Validators[i].AccumulatedRewardsWei)
		v.AccumulatedRewardsWei.Add(v.AccumulatedRewardsWei, big.NewInt(1))
		vAssert(vEq(before, lc.Validators[i].AccumulatedRewardsWei), "checkpoint shares no storage")
	}
}

// vC11Latest: the newest of any set of checkpoints.
func vC11Latest() {
	or := NewOracle(vCfg(10, 7200))
	k := vPick("count", 4)
	max := uint64(0)
	var slots []uint64
	for i := 0; i < k; i++ {
		s := vU64("slot")
		vAssume(s > 0)
		or.State().CommitedStates[s] = &OnchainState{Slot: s}
		max = vIteU64(s > max, s, max)
		slots = append(slots, s)
	}
	if vPick("order", 2) == 1 {
		vMapOrder(1)
	}
	got, ok := or.LatestCommitedSlot()
	vReach("latest")
	vAssert(ok == (k > 0), "whether anything was committed")
	c := or.LatestCommitedState()
	if k == 0 {
		vAssert(c == nil, "nothing committed")
		return
	}
	vAssert(got == max, "newest checkpoint")
	vAssert(c != nil && c.Slot == max, "newest checkpoint state")
}

// vC12Seq: slots are processed one by one, each with the block of that slot; anything else leaves the state alone.
func vC12Seq() {
	e := vNewEnv(1, 0)
	vAssume(vAnd(e.slot != ExceptionSlotMainnet1, e.slot%1200 != 0))
	st := e.or.State()
	latest := vU64("latest")
	next := vU64("next")
	vAssume(vAnd(next != ExceptionSlotMainnet1, next%1200 != 0, next < 1<<62, latest < 1<<62))
	st.LatestProcessedSlot = latest
	st.NextSlotToProcess = next
	block := st.LatestProcessedBlock
	snap := e.snap()
	recorded := len(st.ProposedBlocks) + len(st.MissedBlocks) + len(st.WrongFeeBlocks) + len(st.Donations) + len(st.EtherReceivedEvents)
	pool := new(big.Int).Set(st.PoolAccumulatedFees)
	fb := e.fullBlock(vBase, vCredOf(vAddrOf(7), byte(vPick("cred", 2))))
	kind := vPick("kind", 4)
	ev := &Events{}
	if kind%2 == 1 && vPick("event", 2) == 1 {
		ev.EtherReceived = append(ev.EtherReceived, e.ether(vBig("donation", 90)))
	}
	e.propose(fb, kind, vBig("reward", 90), ev)
	got, err := e.or.AdvanceStateToNextSlot(fb)
	vReach("sequence")
	vObs("ok", err == nil)
	vAssert(vIff(err == nil, vAnd(next == latest+1, next == e.slot)), "a slot is processed exactly when it is the next one")
	if err != nil {
		vAssert(vAnd(st.LatestProcessedSlot == latest, st.NextSlotToProcess == next, st.LatestProcessedBlock == block), "rejected: position unchanged")
		vAssert(vEq(pool, st.PoolAccumulatedFees), "rejected: pool fees unchanged")
		for i, s := range snap {
			v := st.Validators[i]
			vAssert(vAnd(v.ValidatorStatus == s.status, vEq(v.AccumulatedRewardsWei, s.acc), vEq(v.PendingRewardsWei, s.pend)), "rejected: validators unchanged")
		}
		vAssert(len(st.ProposedBlocks)+len(st.MissedBlocks)+len(st.WrongFeeBlocks)+len(st.Donations)+len(st.EtherReceivedEvents) == recorded, "rejected: nothing recorded")
		return
	}
	vAssert(got == next, "slot returned")
	vAssert(vAnd(st.LatestProcessedSlot == next, st.NextSlotToProcess == next+1), "position advances by one")
	if kind == 0 {
		vAssert(st.LatestProcessedBlock == block, "a missed slot keeps the last block")
	} else {
		vAssert(st.LatestProcessedBlock == e.block, "last block advances")
	}
	// the same block again, or any block of another slot, is rejected
	_, err = e.or.AdvanceStateToNextSlot(fb)
	vAssert(err != nil, "a slot is processed once")
}

// vC12Start: a new oracle starts at the deployment slot.
func vC12Start() {
	d := vU64("deployed")
	vAssume(d > 0)
	or := NewOracle(vCfg(d, 7200))
	st := or.State()
	vReach("start")
	vAssert(vAnd(st.NextSlotToProcess == d, st.LatestProcessedSlot == d-1), "starts at the deployment slot")
	vAssert(vAnd(len(st.Validators) == 0, st.PoolAccumulatedFees.Sign() == 0), "starts empty")
}

// vC13Checkpoint: checkpoints are the slots at multiples of the configured size after the deployment.
func vC13Checkpoint() {
	d, size, slot := vU64("deployed"), vU64("size"), vU64("slot")
	vAssume(size > 0)
	or := NewOracle(vCfg(d, size))
	or.State().LatestProcessedSlot = slot
	got, err := or.IsCheckpoint()
	vReach("checkpoint")
	vObs("got", got)
	vAssert(vIff(err != nil, vOr(slot == 0, slot < d)), "an error before the deployment")
	if err != nil {
		vAssert(!got, "no checkpoint with an error")
	} else {
		k := vU64("k")
		r := slot - d
		vAssert(vImplies(got, r%size == 0), "only multiples of the size")
		vAssert(vImplies(vNot(got), r%size != 0), "every multiple of the size")
		_ = k
	}
}

// vC22Sync: the verdict of the comparison with the contract.
func vC22Sync() {
	or := NewOracle(vCfg(10, 7200))
	k := vPick("count", 3)
	newest := uint64(0)
	roots := []string{"0x" + strings.Repeat("ab", 32), "0x" + strings.Repeat("00", 31) + "01", DefaultRoot}
	newestRoot := ""
	r0 := vPick("root0", 2)
	for i := 0; i < k; i++ {
		s := vU64("slot")
		vAssume(s > newest)
		newest = s
		newestRoot = roots[(r0+i)%2]
		or.State().CommitedStates[s] = &OnchainState{Slot: s, MerkleRoot: newestRoot}
	}
	chainRoot := roots[vPick("chainRoot", 3)]
	same := chainRoot == newestRoot
	isDefault := chainRoot == DefaultRoot
	if vPick("upper", 2) == 1 {
		chainRoot = "0x" + strings.ToUpper(chainRoot[2:])
	}
	chainSlot := vU64("chainSlot")
	got, err := or.IsOracleInSyncWithChain(chainRoot, chainSlot)
	vReach("sync")
	vObs("got", got)
	vObs("err", err == nil)
	if k == 0 {
		vAssert(err == nil, "nothing committed is never an error")
		vAssert(got == isDefault, "without checkpoints in sync exactly with an empty contract")
		return
	}
	eqSlot := chainSlot == newest
	vAssert(vIff(got, vAnd(same, eqSlot)), "in sync exactly when root and slot of the newest checkpoint match")
	vAssert(vIff(err != nil, vNot(vIff(same, eqSlot))), "an error exactly when only one of them matches")
}

// vC23Onchain: solvency check against the contract balance.
func vC23Onchain() {
	n := vParam("n", 3)
	or := NewOracle(vCfg(10, 7200))
	vLedgerInto(or.State(), n, 2, 120)
	st := or.State()
	owed := new(big.Int).Set(st.PoolAccumulatedFees)
	for i := 0; i < len(st.Validators); i++ {
		v := st.Validators[vBase+uint64(i)]
		owed.Add(owed, v.AccumulatedRewardsWei)
		owed.Add(owed, v.PendingRewardsWei)
	}
	before := new(big.Int).Set(owed)
	claimed := map[string]*big.Int{}
	for i := 0; i < vParam("claims", 2); i++ {
		c := vBig("claimed", 120)
		claimed[vSpell[i*2]] = c
		owed.Sub(owed, c)
	}
	balance := vBig("balance", 130)
	bal := new(big.Int).Set(balance)
	err := or.RunOnchainReconciliation(balance, claimed)
	vReach("reconciled")
	vObs("ok", err == nil)
	vAssert(vIff(err == nil, vEq(owed, bal)), "solvent exactly when what is owed and unclaimed equals the balance")
	vAssert(vEq(vLiab(st), before), "the check changes nothing")
	vAssert(vEq(balance, bal), "the check changes nothing")
}

// vC23Offchain: the ledger check against everything received.
func vC23Offchain() {
	n := vParam("n", 2)
	or := NewOracle(vCfg(10, 7200))
	vLedgerInto(or.State(), n, 1, 120)
	st := or.State()
	assets := new(big.Int)
	for i := 0; i < vPick("donations", 3); i++ {
		d := vBig("donation", 100)
		assets.Add(assets, d)
		st.EtherReceivedEvents = append(st.EtherReceivedEvents, &contract.ContractEtherReceived{Sender: common.HexToAddress(vOther), DonationAmount: d})
	}
	for i := 0; i < vPick("subs", 3); i++ {
		d := vBig("collateral", 100)
		assets.Add(assets, d)
		st.SubscriptionEvents = append(st.SubscriptionEvents, &contract.ContractSubscribeValidator{SubscriptionCollateral: d})
	}
	for i := 0; i < vPick("blocks", 3); i++ {
		r := vBig("reward", 100)
		b := SummarizedBlock{Reward: r, RewardType: MevBlock, BlockType: []BlockType{OkPoolProposal, OkPoolProposalBlsKeys}[vPick("kind", 2)]}
		if vPick("vanilla", 2) == 1 {
			b.RewardType = VanilaBlock
			assets.Add(assets, r)
		}
		st.ProposedBlocks = append(st.ProposedBlocks, b)
	}
	before := vLiab(st)
	err := or.RunOffchainReconciliation()
	vReach("reconciled")
	vObs("ok", err == nil)
	vAssert(vIff(err == nil, vEq(before, assets)), "balanced exactly when liabilities equal assets")
	vAssert(vEq(before, vLiab(st)), "the check changes nothing")
}

// vC33Unique: the addresses whose claims are looked up.
func vC33Unique() {
	n := vParam("n", 3)
	st := vLedger(n, 5, 8)
	if k := vPick("fee", 3); k > 0 { // a validator of the pool's operator
		st.Validators[vBase].WithdrawalAddress = []string{vPoolFee, "0x" + strings.ToUpper(vPoolFee[2:])}[k-1]
	}
	or := NewOracle(vCfg(10, 7200))
	*or.State() = *st
	if vPick("order", 2) == 1 {
		vMapOrder(1)
	}
	got := or.GetUniqueWithdrawalAddresses()
	vReach("unique")
	want := map[string]bool{strings.ToLower(st.PoolFeesAddress): true}
	for i := 0; i < len(st.Validators); i++ {
		want[strings.ToLower(st.Validators[vBase+uint64(i)].WithdrawalAddress)] = true
	}
	vAssert(len(got) == len(want), "one entry per address")
	for w := range want {
		found := 0
		for _, g := range got {
			if strings.ToLower(g) == w {
				found++
			}
		}
		vAssert(found == 1, "every address exactly once")
	}
}
