package oracle

import (
	"encoding/json"
	"math/big"
	"os"
	"path/filepath"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
)

// vRichState: an oracle whose state has something in every field.
func vRichState(n int, rich, enums bool) *vEnv {
	e := vNewEnv(n, 0)
	st := e.or.State()
	for i := 0; i < n; i++ {
		v := st.Validators[vBase+uint64(i)]
		v.CollateralWei = vBig("collateral", 96)
		if enums {
			v.ValidatorStatus = ValidatorStatus(vInt("anyStatus", 0, 6))
		} else {
			v.ValidatorStatus, v.SubscriptionType = Active, Manual
		}
	}
	if rich {
		vAssert(e.or.FreezeCheckpoint(), "checkpoint")
		st.SubscriptionEvents = append(st.SubscriptionEvents, &contract.ContractSubscribeValidator{Sender: common.HexToAddress(vOther), SubscriptionCollateral: vBig("subAmount", 96), ValidatorID: vU64("subID"), Raw: vLog(vU64("subBlock"))})
		st.UnsubscriptionEvents = append(st.UnsubscriptionEvents, &contract.ContractUnsubscribeValidator{Sender: common.HexToAddress(vOther), ValidatorID: vU64("unsubID"), Raw: vLog(vU64("unsubBlock"))})
		st.EtherReceivedEvents = append(st.EtherReceivedEvents, &contract.ContractEtherReceived{Sender: common.HexToAddress(vOther), DonationAmount: vBig("ether", 96), Raw: vLog(vU64("etherBlock"))})
		st.Donations = append(st.Donations, &contract.ContractEtherReceived{Sender: common.HexToAddress(vOther), DonationAmount: vBig("donation", 96), Raw: vLog(vU64("donationBlock"))})
		list := 3
		if enums {
			list = vPick("list", 3)
		}
		for k := 0; k < 3; k++ {
			b := SummarizedBlock{Slot: vU64("bSlot"), Block: vU64("bBlock"), ValidatorIndex: vU64("bVal"), ValidatorKey: "0xcd",
				BlockType: OkPoolProposal, Reward: vBig("bReward", 96), RewardType: MevBlock, WithdrawalAddress: vAddrOf(k)}
			if k == list {
				b.BlockType, b.RewardType = BlockType(vInt("bType", 0, 4)), RewardType(vInt("bRewardType", 0, 2))
			}
			switch k {
			case 0:
				st.ProposedBlocks = append(st.ProposedBlocks, b)
			case 1:
				st.MissedBlocks = append(st.MissedBlocks, b)
			case 2:
				st.WrongFeeBlocks = append(st.WrongFeeBlocks, b)
			}
		}
	}
	return e
}

func vSameBlocks(a, b []SummarizedBlock, tag string) {
	vAssert(len(a) == len(b), tag+": number of blocks")
	for i := range a {
		x, y := a[i], b[i]
		vAssert(vAnd(x.Slot == y.Slot, x.Block == y.Block, x.ValidatorIndex == y.ValidatorIndex, x.ValidatorKey == y.ValidatorKey, x.BlockType == y.BlockType,
			vEq(x.Reward, y.Reward), x.RewardType == y.RewardType, vEqStr(x.WithdrawalAddress, y.WithdrawalAddress)), tag+": block record")
	}
}

func vSameEther(a, b []*contract.ContractEtherReceived, tag string) {
	vAssert(len(a) == len(b), tag+": number of events")
	for i := range a {
		vAssert(vAnd(a[i].Sender == b[i].Sender, vEq(a[i].DonationAmount, b[i].DonationAmount), a[i].Raw.BlockNumber == b[i].Raw.BlockNumber, a[i].Raw.Address == b[i].Raw.Address), tag+": event")
	}
}

// vSameAll: every field of two states.
func vSameAll(x, y *OracleState, tag string) {
	vAssert(vAnd(x.LatestProcessedSlot == y.LatestProcessedSlot, x.LatestProcessedBlock == y.LatestProcessedBlock, x.NextSlotToProcess == y.NextSlotToProcess), tag+": position")
	vAssert(vEq(x.PoolAccumulatedFees, y.PoolAccumulatedFees), tag+": pool fees")
	vAssert(len(x.Validators) == len(y.Validators), tag+": validators")
	for i, v := range x.Validators {
		w := y.Validators[i]
		vAssert(w != nil, tag+": validators")
		vSameVal(vCopyVal(v), w, tag)
	}
	vAssert(len(x.CommitedStates) == len(y.CommitedStates), tag+": checkpoints")
	for s, c := range x.CommitedStates {
		d := y.CommitedStates[s]
		vAssert(d != nil, tag+": checkpoints")
		vAssert(vAnd(c.Slot == d.Slot, vEqStr(c.MerkleRoot, d.MerkleRoot), vEqStr(c.TxHash, d.TxHash)), tag+": checkpoint root")
		vAssert(vAnd(len(c.Validators) == len(d.Validators), len(c.Leafs) == len(d.Leafs), len(c.Proofs) == len(d.Proofs)), tag+": checkpoint content")
		for i, v := range c.Validators {
			vSameVal(vCopyVal(v), d.Validators[i], tag+" checkpoint")
		}
		for a, l := range c.Leafs {
			vAssert(vAnd(vEqStr(l.WithdrawalAddress, d.Leafs[a].WithdrawalAddress), vEq(l.AccumulatedBalanceWei, d.Leafs[a].AccumulatedBalanceWei)), tag+": checkpoint leaf")
		}
		for a, p := range c.Proofs {
			q := d.Proofs[a]
			vAssert(len(p) == len(q), tag+": checkpoint proof")
			for k := range p {
				vAssert(vEqStr(p[k], q[k]), tag+": checkpoint proof")
			}
		}
	}
	vAssert(len(x.SubscriptionEvents) == len(y.SubscriptionEvents), tag+": subscriptions")
	for i, a := range x.SubscriptionEvents {
		b := y.SubscriptionEvents[i]
		vAssert(vAnd(a.Sender == b.Sender, vEq(a.SubscriptionCollateral, b.SubscriptionCollateral), a.ValidatorID == b.ValidatorID, a.Raw.BlockNumber == b.Raw.BlockNumber), tag+": subscription event")
	}
	vAssert(len(x.UnsubscriptionEvents) == len(y.UnsubscriptionEvents), tag+": unsubscriptions")
	for i, a := range x.UnsubscriptionEvents {
		b := y.UnsubscriptionEvents[i]
		vAssert(vAnd(a.Sender == b.Sender, a.ValidatorID == b.ValidatorID, a.Raw.BlockNumber == b.Raw.BlockNumber), tag+": unsubscription event")
	}
	vSameEther(x.EtherReceivedEvents, y.EtherReceivedEvents, tag+" ether")
	vSameEther(x.Donations, y.Donations, tag+" donations")
	vSameBlocks(x.ProposedBlocks, y.ProposedBlocks, tag+" proposed")
	vSameBlocks(x.MissedBlocks, y.MissedBlocks, tag+" missed")
	vSameBlocks(x.WrongFeeBlocks, y.WrongFeeBlocks, tag+" wrong fee")
	vAssert(vAnd(x.PoolFeesPercentOver10000 == y.PoolFeesPercentOver10000, x.PoolAddress == y.PoolAddress, x.Network == y.Network, x.PoolFeesAddress == y.PoolFeesAddress,
		x.CheckPointSizeInSlots == y.CheckPointSizeInSlots, x.DeployedBlock == y.DeployedBlock, x.DeployedSlot == y.DeployedSlot, vEq(x.CollateralInWei, y.CollateralInWei)), tag+": configuration")
}

// vC14RoundTrip: what is saved is what is loaded.
func vC14RoundTrip() {
	vFsClear()
	e := vRichState(vParam("n", 1), vParam("rich", 1) == 1, true)
	st := e.or.State()
	if vPick("saveSlot", 2) == 1 {
		vAssert(e.or.SaveToJson(true) == nil, "save succeeds")
	} else {
		vAssert(e.or.SaveToJson(false) == nil, "save succeeds")
	}
	c := *e.cfg
	f := NewOracle(&c)
	found, err := f.LoadFromJson()
	vReach("loaded")
	vAssert(vAnd(err == nil, found), "load succeeds")
	vSameAll(st, f.State(), "round trip")
	// and it can be saved and loaded again
	vAssert(f.SaveToJson(false) == nil, "second save succeeds")
	vAssert(vEqStr(st.StateHash, f.State().StateHash), "same state, same hash")
	g := NewOracle(&c)
	found, err = g.LoadFromJson()
	vAssert(vAnd(err == nil, found), "second load succeeds")
	vSameAll(st, g.State(), "second round trip")
}

// vC14Config: a state of another configuration is refused.
func vC14Config() {
	vFsClear()
	e := vRichState(1, false, false)
	vAssume(e.slot < 2801050)
	vAssert(e.or.SaveToJson(false) == nil, "save succeeds")
	c := *e.cfg
	switch vPick("field", 9) {
	case 0:
		c.Network = Hoodi
	case 1:
		c.PoolAddress = vOther
	case 2:
		c.PoolFeesAddress = vOther
	case 3:
		x := int(vInt("otherFee", 0, 10000))
		vAssume(x != c.PoolFeesPercentOver10000)
		c.PoolFeesPercentOver10000 = x
	case 4:
		x := vBig("otherCollateral", 96)
		vAssume(!vEq(x, c.CollateralInWei))
		c.CollateralInWei = x
	case 5:
		x := vU64("otherSize")
		vAssume(vAnd(x != c.CheckPointSizeInSlots, x > 0))
		c.CheckPointSizeInSlots = x
	case 6:
		x := vU64("otherBlock")
		vAssume(x != c.DeployedBlock)
		c.DeployedBlock = x
	case 7:
		x := vU64("otherSlot")
		vAssume(vAnd(x != c.DeployedSlot, x > 0))
		c.DeployedSlot = x
	case 8:
		found, err := NewOracle(&c).LoadFromJson()
		vAssert(vAnd(err == nil, found), "the same configuration is accepted")
		return
	}
	f := NewOracle(&c)
	vReach("other configuration")
	found, err := f.LoadFromJson()
	vAssert(vAnd(err != nil, vNot(found)), "a state of another configuration is refused")
	vAssert(vAnd(len(f.State().Validators) == 0, f.State().LatestProcessedSlot == c.DeployedSlot-1), "nothing is loaded from a refused state")
}

// vC14Tamper: a modified state is refused.
func vC14Tamper() {
	vFsClear()
	e := vRichState(1, true, false)
	vAssert(e.or.SaveToJson(false) == nil, "save succeeds")
	path := filepath.Join(StateFolder, StateJsonName)
	raw, err := os.ReadFile(path)
	vAssert(err == nil, "saved file")
	var t OracleState
	vAssert(json.Unmarshal(raw, &t) == nil, "saved file is json")
	v := t.Validators[vBase]
	big1 := func(x **big.Int) {
		y := vBig("tampered", 97)
		vAssume(!vEq(y, *x))
		*x = y
	}
	u64 := func(x *uint64) {
		y := vU64("tampered")
		vAssume(y != *x)
		*x = y
	}
	switch vPick("field", 20) {
	case 0:
		big1(&v.AccumulatedRewardsWei)
	case 1:
		big1(&v.PendingRewardsWei)
	case 2:
		big1(&t.PoolAccumulatedFees)
	case 3:
		u64(&t.LatestProcessedSlot)
	case 4:
		u64(&t.NextSlotToProcess)
	case 5:
		v.WithdrawalAddress = vOther
	case 6:
		x := ValidatorStatus(vInt("tamperedStatus", 0, 6))
		vAssume(x != v.ValidatorStatus)
		v.ValidatorStatus = x
	case 7:
		delete(t.Validators, vBase)
	case 8:
		vAssume(!vEqStr(t.CommitedStates[e.slot-1].MerkleRoot, DefaultRoot))
		t.CommitedStates[e.slot-1].MerkleRoot = DefaultRoot
	case 9:
		big1(&t.EtherReceivedEvents[0].DonationAmount)
	case 10:
		t.ProposedBlocks = nil
	case 11:
		big1(&t.SubscriptionEvents[0].SubscriptionCollateral)
	case 12:
		u64(&t.LatestProcessedBlock)
	case 13:
		u64(&t.UnsubscriptionEvents[0].ValidatorID)
	case 14:
		big1(&t.Donations[0].DonationAmount)
	case 15:
		u64(&t.MissedBlocks[0].Slot)
	case 16:
		big1(&t.WrongFeeBlocks[0].Reward)
	case 17:
		delete(t.CommitedStates, e.slot-1)
	case 18:
		big1(&v.CollateralWei)
	case 19:
		v.SubscriptionType = Auto
	}
	if vPick("hash", 2) == 1 { // and the hash removed
		t.StateHash = ""
	}
	raw, err = json.MarshalIndent(&t, "", " ")
	vAssert(err == nil, "tampered state is json")
	c := *e.cfg
	f := NewOracle(&c)
	vReach("tampered")
	found := false
	r := vTry(func() { found, err = f.LoadFromBytes(raw) })
	vAssert(r == 2 || r == 0 && err != nil && !found, "a modified state is refused")
	vAssert(vAnd(len(f.State().Validators) == 0, f.State().LatestProcessedSlot == c.DeployedSlot-1), "nothing is loaded from a refused state")
}

// vC14Missing: no file, and files that are not a state.
func vC14Missing() {
	vFsClear()
	or := NewOracle(vCfg(10, 7200))
	found, err := or.LoadFromJson()
	vReach("missing")
	vAssert(vAnd(err == nil, vNot(found)), "without a file the oracle starts from scratch")
	for _, raw := range []string{"", "{", "[]", "\"x\"", "{}", "{\"state_hash\": \"0x00\"}", "null"} {
		code := vTry(func() { found, err = or.LoadFromBytes([]byte(raw)) })
		vAssert(code == 2 || err != nil && !found, "garbage is refused")
	}
	vAssert(vAnd(len(or.State().Validators) == 0, or.State().LatestProcessedSlot == 9), "nothing is loaded")
}

// vC14Given: states of older checkpoints.
func vC14Given() {
	vFsClear()
	size := uint64(vInt("size", 1, 100000))
	want := vU64("want")
	vAssume(vAnd(want > 3*size, want < 1<<40))
	c := vCfg(1, size)
	have := []bool{}
	for i := uint64(0); i < 4; i++ {
		h := vPick("have", 2) == 1
		have = append(have, h)
		if h {
			or := NewOracle(c)
			or.State().LatestProcessedSlot = want - i*size
			or.State().NextSlotToProcess = want - i*size + 1
			vAssert(or.SaveToJson(true) == nil, "save succeeds")
		}
	}
	or := NewOracle(c)
	found, err := or.LoadGivenState(want)
	vReach("given")
	vAssert(err == nil, "no error")
	for i := uint64(0); i < 3; i++ {
		if have[i] {
			vAssert(found, "found")
			vAssert(or.State().LatestProcessedSlot == want-i*size, "newest of the last three checkpoints")
			return
		}
	}
	vAssert(vNot(found), "older states are not used")
	vAssert(or.State().LatestProcessedSlot == 0, "nothing is loaded")
}

// vC15Crash: the process dies at any point of a save; the next start finds a complete state.
func vC15Crash() {
	vFsClear()
	e := vNewEnv(1, 0)
	vAssume(e.slot < 14082460)
	st := e.or.State()
	st.CommitedStates = map[uint64]*OnchainState{}
	c := *e.cfg
	had := vPick("had", 2) == 1
	if had {
		vAssert(e.or.SaveToJson(true) == nil, "first save succeeds")
	}
	oldSlot, oldFees := st.LatestProcessedSlot, new(big.Int).Set(st.PoolAccumulatedFees)
	st.LatestProcessedSlot += uint64(vInt("steps", 1, 10000))
	st.NextSlotToProcess = st.LatestProcessedSlot + 1
	st.PoolAccumulatedFees = vBig("newFees", 96)
	vAssume(!vEq(st.PoolAccumulatedFees, oldFees))
	saveSlot := vPick("saveSlot", 2) == 1
	done := false
	vPower(vPick("power", 2) == 1)
	crashed := vCrash(func() {
		err := e.or.SaveToJson(saveSlot)
		done = err == nil
	})
	f := NewOracle(&c)
	found, err := f.LoadFromJson()
	vReach("restart")
	vAssert(err == nil, "crash-leaves-a-loadable-state")
	vAssert(vOr(vNot(had), found), "a saved state is never lost")
	if !crashed && done {
		vAssert(found && f.State().LatestProcessedSlot == st.LatestProcessedSlot, "a completed save is loaded")
	}
	if !found {
		return
	}
	isNew := vAnd(f.State().LatestProcessedSlot == st.LatestProcessedSlot, vEq(f.State().PoolAccumulatedFees, st.PoolAccumulatedFees))
	isOld := vAnd(had, f.State().LatestProcessedSlot == oldSlot, vEq(f.State().PoolAccumulatedFees, oldFees))
	vAssert(vOr(isNew, isOld), "either the old or the new state, complete")
	// the copy by slot, if there is one, is complete too
	g := NewOracle(&c)
	found, err = g.LoadGivenState(st.LatestProcessedSlot)
	vAssert(err == nil, "crash-leaves-a-loadable-checkpoint-copy")
	if found {
		isNew = vAnd(g.State().LatestProcessedSlot == st.LatestProcessedSlot, vEq(g.State().PoolAccumulatedFees, st.PoolAccumulatedFees))
		isOld = vAnd(had, g.State().LatestProcessedSlot == oldSlot, vEq(g.State().PoolAccumulatedFees, oldFees))
		vAssert(vOr(isNew, isOld), "checkpoint copy complete")
	}
}

// VSameAll: for the harnesses of other packages.
func VSameAll(x, y *OracleState, tag string) { vSameAll(x, y, tag) }
