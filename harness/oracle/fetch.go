package oracle

import (
	"bytes"
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

const vSlotOffset = 5

// vNodeOf: the node of a chain with the block b in the slot (or none), with the events given.
func (e *vEnv) vNodeOf(b *vShapedBlock, ev *Events) *vNode {
	n := &vNode{slot: e.slot, number: e.block, vals: map[uint64]*v1.Validator{b.proposer: b.fb.Validator},
		block: b.fb.ConsensusBlock, ev: ev, header: b.fb.ExecutionHeader, receipts: b.fb.ExecutionReceipts, attempts: 2, failAt: -1, badLog: -1}
	n.duties = func(epoch uint64) []*v1.ProposerDuty {
		var ds []*v1.ProposerDuty
		for i := uint64(0); i < 32; i++ {
			d := &v1.ProposerDuty{Slot: phase0.Slot(epoch*32 + i), ValidatorIndex: phase0.ValidatorIndex(b.proposer), PubKey: vKeyOf(b.proposer)}
			if i != vSlotOffset {
				d.ValidatorIndex = 999999
			}
			ds = append(ds, d)
		}
		return ds
	}
	return n
}

// vChainEvents: events of one kind, besides the ether received.
func (e *vEnv) vChainEvents(b *vShapedBlock, n *vNode, kinds int) *Events {
	ev := &Events{EtherReceived: b.events}
	l := vLog(e.block)
	kind := vParam("kind", 0)
	if kinds > 1 {
		kind = vParam("minkind", 0) + vPick("events", kinds-vParam("minkind", 0))
	}
	if vParam("advance", 1) == 0 && (kind == 1 || kind == 2) { // what they say does not matter to the fetching
		val := func(i uint64) *v1.Validator {
			if vPick("known", 2) == 0 {
				return nil
			}
			return vValidator(i, vCredOf(vAddrOf(int(i%2)), 1), v1.ValidatorStateActiveOngoing, 32000000000)
		}
		for k := uint64(0); k < 2; k++ {
			i := vBase + 1 + k
			if v := val(i); v != nil {
				n.vals[i] = v
			}
			if kind == 1 {
				ev.SubscribeValidator = append(ev.SubscribeValidator, &contract.ContractSubscribeValidator{ValidatorID: i, SubscriptionCollateral: big.NewInt(1), Raw: l})
			} else {
				ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, &contract.ContractUnsubscribeValidator{ValidatorID: i, Raw: l})
			}
		}
		return ev
	}
	switch kind {
	case 1:
		for k := 0; k < 2; k++ {
			s := e.subEvent(e.n)
			ev.SubscribeValidator = append(ev.SubscribeValidator, s.ev)
			if s.val != nil {
				n.vals[s.idx] = s.val
			}
			if k == 0 && vPick("second", 2) == 0 {
				break
			}
		}
	case 2:
		s := e.unsubEvent(e.n)
		ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, s.ev)
		if s.val != nil {
			n.vals[s.idx] = s.val
		}
	case 3:
		ev.BanValidator = append(ev.BanValidator, e.banEvent(vBase))
		ev.UnbanValidator = append(ev.UnbanValidator, e.unbanEvent(vBase))
	case 4:
		ev.UpdatePoolFee = append(ev.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: big.NewInt(int64(e.cfg.PoolFeesPercentOver10000)), Raw: l})
		ev.PoolFeeRecipient = append(ev.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: common.HexToAddress(vPoolFee), Raw: l})
		ev.CheckpointSlotSize = append(ev.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: e.cfg.CheckPointSizeInSlots, Raw: l})
		ev.UpdateSubscriptionCollateral = append(ev.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: new(big.Int).Set(e.cfg.CollateralInWei), Raw: l})
	}
	return ev
}

// vEarlierSlot: with again=1 the slot before is fetched first, with a block, events and validators of its own; the result
// says whether it is still what was fetched then.
func (e *vEnv) vEarlierSlot(oc *Onchain, b *vShapedBlock, n *vNode) func() {
	if vParam("again", 0) == 0 {
		return func() {}
	}
	e.slot, e.block = e.slot-1, e.block-1
	b0 := e.vShape(1, 1)
	n0 := e.vNodeOf(b0, nil)
	n0.ev = e.vChainEvents(b0, n0, 1)
	n0.vals[b0.proposer] = b0.fb.Validator
	e.slot, e.block = e.slot+1, e.block+1
	duties := n.duties
	n.duties = func(epoch uint64) []*v1.ProposerDuty {
		ds := duties(epoch)
		ds[vSlotOffset-1].ValidatorIndex, ds[vSlotOffset-1].PubKey = phase0.ValidatorIndex(b0.proposer), vKeyOf(b0.proposer)
		return ds
	}
	n0.duties = n.duties
	n0.install()
	var fb *FullBlock
	r := vTry(func() { fb = oc.FetchFullBlock(e.slot-1, e.or) })
	vAssert(r == 0 && !n0.bad, "only data of the slot is asked for")
	check := func() {
		vAssert(vAnd(uint64(fb.ConsensusDuty.Slot) == e.slot-1, uint64(fb.ConsensusDuty.ValidatorIndex) == b0.proposer, fb.ConsensusDuty.PubKey == vKeyOf(b0.proposer)), "the duty is the one of the slot")
		vAssert(vSameBeacon(fb.Validator, n0.vals[b0.proposer]), "the proposer is the one of the duty")
		vAssert(vSameBlock(fb.ConsensusBlock, n0.block), "the block is the one of the slot")
		vAssert(fb.ExecutionHeader == nil || vSameHeader(fb.ExecutionHeader, n0.header), "the header is the one of the block")
		vAssert(len(fb.ExecutionReceipts) == 0 || len(fb.ExecutionReceipts) == len(n0.receipts), "the receipts are those of the block")
		for i, rc := range fb.ExecutionReceipts {
			vAssert(vSameReceipt(rc, n0.receipts[i]), "the receipts are those of the block")
		}
		vSameEvents(fb.Events, n0.ev)
		vAssert(len(fb.ValidatorsSubs) == len(n0.ev.SubscribeValidator) && len(fb.ValidatorsUnsubs) == len(n0.ev.UnsubscribeValidator), "every event comes with its validator")
		for i, s := range n0.ev.SubscribeValidator {
			vAssert(vSameBeacon(fb.ValidatorsSubs[i], n0.vals[s.ValidatorID]), "every event comes with its validator")
		}
	}
	check()
	vReach("again")
	n.install()
	return check
}

// What is fetched may be copied on the way, so contents are compared.
func vSameBeacon(a, b *v1.Validator) bool {
	if a == b || a == nil || b == nil {
		return a == b
	}
	x, y := a.Validator, b.Validator
	if x == nil || y == nil {
		return x == y
	}
	return vAnd(a.Index == b.Index, a.Status == b.Status, a.Balance == b.Balance, x.EffectiveBalance == y.EffectiveBalance, x.Slashed == y.Slashed,
		x.ActivationEpoch == y.ActivationEpoch, x.ExitEpoch == y.ExitEpoch, x.PublicKey == y.PublicKey, bytes.Equal(x.WithdrawalCredentials, y.WithdrawalCredentials))
}

func vSameBlock(a, b *spec.VersionedSignedBeaconBlock) bool {
	if a == b || a == nil || b == nil {
		return a == b
	}
	return a.Version == b.Version && a.Phase0 == b.Phase0 && a.Altair == b.Altair && a.Bellatrix == b.Bellatrix && a.Capella == b.Capella && a.Deneb == b.Deneb && a.Electra == b.Electra && a.Fulu == b.Fulu
}

func vSameHeader(a, b *types.Header) bool {
	if a == b || a == nil || b == nil {
		return a == b
	}
	return vAnd(vSameBig(a.Number, b.Number), vSameBig(a.BaseFee, b.BaseFee), a.GasUsed == b.GasUsed)
}

func vSameReceipt(a, b *types.Receipt) bool {
	if a == b || a == nil || b == nil {
		return a == b
	}
	return vAnd(a.GasUsed == b.GasUsed, a.Status == b.Status, a.TxHash == b.TxHash, vSameBig(a.EffectiveGasPrice, b.EffectiveGasPrice))
}

func vSameBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

func vSameLog(a, b types.Log) bool {
	return vAnd(a.BlockNumber == b.BlockNumber, a.TxHash == b.TxHash, a.Index == b.Index)
}

func vSamePayment(a, b *contract.ContractEtherReceived) bool {
	return a == b || vAnd(a.Sender == b.Sender, vSameBig(a.DonationAmount, b.DonationAmount), vSameLog(a.Raw, b.Raw))
}

func vSameSub(a, b *contract.ContractSubscribeValidator) bool {
	return a == b || vAnd(a.Sender == b.Sender, a.ValidatorID == b.ValidatorID, vSameBig(a.SubscriptionCollateral, b.SubscriptionCollateral), vSameLog(a.Raw, b.Raw))
}

func vSameEvents(a, b *Events) {
	vAssert(len(a.EtherReceived) == len(b.EtherReceived), "every payment of the block is fetched")
	for i := range b.EtherReceived {
		vAssert(vSamePayment(a.EtherReceived[i], b.EtherReceived[i]), "the events keep their order")
	}
	vAssert(len(a.SubscribeValidator) == len(b.SubscribeValidator), "every subscription of the block is fetched")
	for i := range b.SubscribeValidator {
		vAssert(vSameSub(a.SubscribeValidator[i], b.SubscribeValidator[i]), "the events keep their order")
	}
	vAssert(len(a.UnsubscribeValidator) == len(b.UnsubscribeValidator), "every unsubscription of the block is fetched")
	vAssert(len(a.BanValidator) == len(b.BanValidator) && len(a.UnbanValidator) == len(b.UnbanValidator), "every ban and unban of the block is fetched")
	vAssert(len(a.UpdatePoolFee) == len(b.UpdatePoolFee) && len(a.PoolFeeRecipient) == len(b.PoolFeeRecipient) &&
		len(a.CheckpointSlotSize) == len(b.CheckpointSlotSize) && len(a.UpdateSubscriptionCollateral) == len(b.UpdateSubscriptionCollateral),
		"every parameter change of the block is fetched")
}

// vC28Fetch: what the oracle fetches for a slot is what the chain has, and enough to process it.
func vC28Fetch() {
	e := vShapeEnv()
	vAssume(e.slot%32 == vSlotOffset)
	b := e.vShape(vParam("txs", 1), vParam("events", 1))
	n := e.vNodeOf(b, nil)
	n.ev = e.vChainEvents(b, n, vParam("kinds", 5))
	if b.fb.Validator != nil && n.vals[b.proposer] != b.fb.Validator {
		n.vals[b.proposer] = b.fb.Validator
	}
	missed := vPick("missed", 2) == 1
	if missed {
		n.block = nil
		n.ev = &Events{}
	}
	fault := vPick("fault", vParam("faults", 3))
	switch fault {
	case 1: // a call fails, then works
		n.failAt, n.failFor = vPick("failAt", vParam("calls", 14)), 1
		n.failHow = n.failAt % 2
	case 2: // a call fails for good
		n.failAt, n.failFor = vPick("failAt", vParam("calls", 14)), 2
		if n.failAt < 4 { // up to the block
			n.failHow = vPick("failHow", 2)
		}
	case 3: // a log cannot be decoded
		n.badLog = vPick("badLog", 9)
	}
	n.install()
	ProposalDutyCache = EpochDuties{}
	oc := n.onchain(e.chain)
	ref := e.twin()
	check := e.vEarlierSlot(oc, b, n)
	var fb *FullBlock
	r := vTry(func() { fb = oc.FetchFullBlock(e.slot, e.or) })
	if fault == 2 && n.failFor == 0 || fault == 3 && n.iters > n.badLog {
		vReach("stopped")
		vAssert(r == 2, "the oracle stops when a part of the slot cannot be fetched")
		return
	}
	vAssert(r == 0, "every slot can be fetched")
	vReach("fetched")
	check()
	vAssert(!n.bad, "only data of the slot is asked for")
	vAssert(vAnd(uint64(fb.ConsensusDuty.Slot) == e.slot, uint64(fb.ConsensusDuty.ValidatorIndex) == b.proposer, fb.ConsensusDuty.PubKey == vKeyOf(b.proposer)), "the duty is the one of the slot")
	vAssert(vSameBeacon(fb.Validator, n.vals[b.proposer]), "the proposer is the one of the duty")
	if missed {
		vAssert(fb.ConsensusBlock == nil, "a slot without a block stays without")
	} else {
		vAssert(vSameBlock(fb.ConsensusBlock, n.block), "the block is the one of the slot")
		vAssert(fb.ExecutionHeader == nil || vSameHeader(fb.ExecutionHeader, n.header), "the header is the one of the block")
		vAssert(len(fb.ExecutionReceipts) == 0 || len(fb.ExecutionReceipts) == len(n.receipts), "the receipts are those of the block")
		for i, rc := range fb.ExecutionReceipts {
			vAssert(vSameReceipt(rc, n.receipts[i]), "the receipts are those of the block")
		}
		vSameEvents(fb.Events, n.ev)
		vAssert(len(fb.ValidatorsSubs) == len(n.ev.SubscribeValidator) && len(fb.ValidatorsUnsubs) == len(n.ev.UnsubscribeValidator), "every event comes with its validator")
		for i, s := range n.ev.SubscribeValidator {
			vAssert(vSameBeacon(fb.ValidatorsSubs[i], n.vals[s.ValidatorID]), "every event comes with its validator")
		}
		for i, s := range n.ev.UnsubscribeValidator {
			vAssert(vSameBeacon(fb.ValidatorsUnsubs[i], n.vals[s.ValidatorID]), "every event comes with its validator")
		}
	}
	if vParam("advance", 1) == 0 {
		return
	}
	// processing it gives what processing the whole block gives
	vAssume(e.slot%1200 != 0)
	toPool := b.mev && b.mevToPool && !b.feeIsPool
	vAssume(missed || !toPool || b.first >= 0) // C21: a reverted payment
	full := e.fullBlock(b.proposer, vCredOf(vAddrOf(7), 1))
	full.Validator = b.fb.Validator
	if !missed {
		full.SetConsensusBlock(n.block)
		full.SetHeaderAndReceipts(n.header, n.receipts)
		full.SetEvents(n.ev)
		full.ValidatorsSubs, full.ValidatorsUnsubs = fb.ValidatorsSubs, fb.ValidatorsUnsubs
	}
	var err, err2 error
	r2 := vTry(func() { _, err2 = ref.or.AdvanceStateToNextSlot(full) })
	r = vTry(func() { _, err = e.or.AdvanceStateToNextSlot(fb) })
	vAssert(r == r2 && (err == nil) == (err2 == nil), "what is fetched is enough to process the slot")
	if r == 0 && err == nil {
		vReach("processed")
		vSameState(e.or, ref.or, []uint64{vBase, vBase + 1}, "processing what was fetched")
	}
}

// vC28Faults: any call that fails, once or for good, and any log that cannot be decoded.
func vC28Faults() { vC28Fetch() }

// vC28Again: two slots, one after the other.
func vC28Again() { vC28Fetch() }

// vC28Subs: two subscriptions in the block.
func vC28Subs() { vC28Fetch() }

// vC28Events: events of the other kinds in the block.
func vC28Events() { vC28Fetch() }

// vC30Duty: the duty of a slot, whatever was asked before and whatever the node answers.
func vC30Duty() {
	n := &vNode{attempts: 1, failAt: -1, badLog: -1}
	ProposalDutyCache = EpochDuties{}
	well := true // the last answer
	asked := false
	var lastEpoch uint64
	lens := []int{32, 0, 31, 33}
	n.duties = func(epoch uint64) []*v1.ProposerDuty {
		asked, lastEpoch = true, epoch
		k := lens[vPick("len", vParam("lens", len(lens)))]
		// the duties from an arbitrary slot on: the right one, another epoch, or shifted by some slots
		from := vU64("from")
		well = vForce(vAnd(k == 32, from == epoch*32))
		var ds []*v1.ProposerDuty
		for i := 0; i < k; i++ {
			ds = append(ds, &v1.ProposerDuty{Slot: phase0.Slot(from + uint64(i)), ValidatorIndex: phase0.ValidatorIndex(vValOf(from + uint64(i))), PubKey: vKeyOf(vValOf(from + uint64(i)))})
		}
		return ds
	}
	n.install()
	oc := n.onchain(MainnetChainId)
	for step := 0; step < vParam("steps", 2); step++ {
		epoch := vU64("epoch")
		vAssume(epoch < 1<<35)
		offs := []uint64{0, 31, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30}
		slot := epoch*32 + offs[vPick("off", vParam("offs", 32))]
		asked, well = false, true
		n.failAt = -1
		if vPick("fails", 2) == 1 {
			n.failAt, n.failFor = n.calls, 1
		}
		var d *v1.ProposerDuty
		var err error
		r := vTry(func() { d, err = oc.GetProposalDuty(slot) })
		vAssert(r == 0, "asking for a duty never stops the oracle")
		if err == nil {
			vReach("duty")
			vAssert(d != nil, "a duty or an error")
			vAssert(vAnd(uint64(d.Slot) == slot, uint64(d.ValidatorIndex) == vValOf(slot), d.PubKey == vKeyOf(vValOf(slot))), "the duty is the one of the slot")
		} else {
			vReach("error")
			vAssert(!well || n.failAt >= 0 && n.failFor == 0, "a well formed answer gives a duty")
		}
		if asked {
			vAssert(lastEpoch == slot/32, "the duties of the epoch of the slot are asked for")
		}
	}
}

// vC30Sequence: several duties, one after the other.
func vC30Sequence() { vC30Duty() }

func vValOf(slot uint64) uint64 { return slot + 7 }
