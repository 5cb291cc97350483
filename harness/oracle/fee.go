package oracle

import (
	"math/big"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
)

// vSchedule: the published fee changes.
func vSchedule(net string) (uint64, int) {
	switch net {
	case Mainnet:
		return 14082460, 500
	case Hoodi:
		return 2801050, 500
	}
	return 0, 0
}

// vC16Event: events of the contract that announce a changed parameter.
func vC16Event() {
	e := vNewEnv(vParam("n", 1), vPick("net", 3))
	vAssume(vAnd(e.slot != ExceptionSlotMainnet1, vOr(e.slot%1200 != 0, e.slot == 14082460, e.slot == 2801050)))
	if len(e.or.State().Validators) > 0 {
		e.or.State().Validators[vBase].PendingRewardsWei.SetInt64(0)
	}
	fb := e.fullBlock(vBase, vCredOf(vAddrOf(0), 1))
	ev := &Events{}
	ok := true
	fee := e.cfg.PoolFeesPercentOver10000
	at, to := vSchedule(e.net)
	nFee := vPick("feeEvents", 3)
	for i := 0; i < nFee; i++ {
		f := vInt("newFee", 0, 20000)
		ev.UpdatePoolFee = append(ev.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: big.NewInt(f), Raw: vLog(e.block)})
		ok = vAnd(ok, i == 0, at != 0, e.slot == at, f == int64(to))
		fee = int(f)
	}
	switch vPick("otherEvent", 8) {
	case 0:
		ev.PoolFeeRecipient = append(ev.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: common.HexToAddress(vPoolFee), Raw: vLog(e.block)})
	case 1:
		ev.PoolFeeRecipient = append(ev.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: common.HexToAddress(vOther), Raw: vLog(e.block)})
		ok = false
	case 2:
		s := vU64("newSize")
		ev.CheckpointSlotSize = append(ev.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: s, Raw: vLog(e.block)})
		ok = vAnd(ok, s == 7200)
	case 3:
		c := vBig("newCollateral", 96)
		ev.UpdateSubscriptionCollateral = append(ev.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: c, Raw: vLog(e.block)})
		ok = vAnd(ok, vEq(c, e.cfg.CollateralInWei))
	case 4:
		for i := 0; i < 2; i++ {
			ev.CheckpointSlotSize = append(ev.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: 7200, Raw: vLog(e.block)})
		}
		ok = false
	case 5:
		for i := 0; i < 2; i++ {
			ev.PoolFeeRecipient = append(ev.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: common.HexToAddress(vPoolFee), Raw: vLog(e.block)})
		}
		ok = false
	case 6:
		for i := 0; i < 2; i++ {
			ev.UpdateSubscriptionCollateral = append(ev.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: e.cfg.CollateralInWei, Raw: vLog(e.block)})
		}
		ok = false
	}
	m := vModelOf(e)
	reward := vBig("reward", 90)
	e.propose(fb, 1, reward, ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vReach("event")
	vAssert(vIff(err == nil, ok), "a block is accepted exactly when the parameters it announces are the configured or scheduled ones")
	if err != nil {
		vAssert(vAnd(e.or.State().LatestProcessedSlot == e.slot-1, e.or.State().PoolFeesPercentOver10000 == m.fee, e.or.PoolFeesPercentOver10000() == m.fee), "a refused block changes nothing")
		m.check("refused")
		return
	}
	m.fee = fee
	if banned := m.banned(vBase); banned {
		m.share(reward)
		m.nProposed++ // see the proposal properties
		return
	}
	m.proposalOk(vBase, vAddrOf(0), reward)
	m.check("fee in force")
	vAssert(vAnd(e.or.State().PoolFeesPercentOver10000 == fee, e.or.PoolFeesPercentOver10000() == fee), "the new fee is in force")
}

// vC16Load: which states are accepted when the fee differs from the initial one.
func vC16Load() {
	vFsClear()
	e := vNewEnv(1, vPick("net", 3))
	vAssert(e.or.SaveToJson(false) == nil, "save succeeds")
	fee := e.cfg.PoolFeesPercentOver10000
	c := *e.cfg
	initial := int(vInt("initialFee", 0, 10000))
	c.PoolFeesPercentOver10000 = initial
	f := NewOracle(&c)
	found, err := f.LoadFromJson()
	vReach("loaded")
	at, to := vSchedule(e.net)
	latest := e.slot - 1
	want := vOr(fee == initial, vAnd(at != 0, latest >= at, fee == to))
	vAssert(vIff(err == nil, want), "a state is accepted exactly when its fee is the initial or the scheduled one for its slot")
	vAssert(found == (err == nil), "found exactly when accepted")
	if err == nil {
		vAssert(f.State().PoolFeesPercentOver10000 == fee, "the fee of the state stays in force")
		// the fee is still saved and accepted again by a restarted oracle
		vAssert(f.SaveToJson(false) == nil, "save succeeds")
		d := *e.cfg
		d.PoolFeesPercentOver10000 = initial
		g := NewOracle(&d)
		found, err = g.LoadFromJson()
		vAssert(vAnd(err == nil, found), "accepted again")
	} else {
		vAssert(len(f.State().Validators) == 0, "nothing is loaded from a refused state")
	}
}

// vC16Older: a node that loaded a state from after a fee change goes back to one from before it.
func vC16Older() {
	vFsClear()
	e := vNewEnv(0, vPick("net", 3))
	at, to := vSchedule(e.net)
	initial := e.cfg.PoolFeesPercentOver10000
	slots := []uint64{vU64("older"), vU64("newer")}
	vAssume(vAnd(slots[0] >= 1, slots[0] < slots[1], slots[1] < 1<<40))
	for _, s := range slots {
		c := *e.cfg
		or := NewOracle(&c)
		or.State().LatestProcessedSlot, or.State().NextSlotToProcess = s, s+1
		if vForce(vAnd(at != 0, s >= at)) {
			or.State().PoolFeesPercentOver10000 = to
		}
		vAssert(or.SaveToJson(true) == nil, "save succeeds")
	}
	c := *e.cfg
	or := NewOracle(&c)
	found, err := or.LoadFromJson()
	vAssert(vAnd(err == nil, found, or.State().LatestProcessedSlot == slots[1]), "the newest state is loaded")
	found, err = or.LoadGivenState(slots[0])
	vReach("older")
	vAssert(vAnd(err == nil, found), "an older state is accepted too")
	vAssert(or.State().LatestProcessedSlot == slots[0], "the older state is loaded")
	want := initial
	if vForce(vAnd(at != 0, slots[0] >= at)) {
		want = to
	}
	vAssert(or.State().PoolFeesPercentOver10000 == want, "with the fee of its slot")
	vAssert(or.SaveToJson(false) == nil, "save succeeds")
	d := *e.cfg
	g := NewOracle(&d)
	found, err = g.LoadFromJson()
	vAssert(vAnd(err == nil, found), "accepted again after a restart")
}
