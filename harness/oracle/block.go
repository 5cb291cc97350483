package oracle

import (
	"encoding/hex"
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/deneb"
	"github.com/attestantio/go-eth2-client/spec/electra"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/utils"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/holiman/uint256"
)

// vPayload: the parts of an execution payload the oracle looks at.
type vPayload struct {
	slot, proposer, number, gasUsed uint64
	baseFee                         [4]uint64 // little endian words
	feeRecipient                    string
	txs                             [][]byte
}

// vVersioned: the signed block of the given fork (0 Bellatrix .. 4 Fulu) carrying the payload.
func vVersioned(fork int, p *vPayload) *spec.VersionedSignedBeaconBlock {
	fee := bellatrix.ExecutionAddress(common.HexToAddress(p.feeRecipient))
	var txs []bellatrix.Transaction
	for _, t := range p.txs {
		txs = append(txs, bellatrix.Transaction(t))
	}
	var le [32]byte
	for i := 0; i < 32; i++ {
		le[i] = byte(p.baseFee[i/8] >> (8 * uint(i%8)))
	}
	slot, idx := phase0.Slot(p.slot), phase0.ValidatorIndex(p.proposer)
	switch fork {
	case 0:
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionBellatrix, Bellatrix: &bellatrix.SignedBeaconBlock{Message: &bellatrix.BeaconBlock{
			Slot: slot, ProposerIndex: idx, Body: &bellatrix.BeaconBlockBody{ExecutionPayload: &bellatrix.ExecutionPayload{
				BlockNumber: p.number, GasUsed: p.gasUsed, BaseFeePerGas: le, FeeRecipient: fee, Transactions: txs}}}}}
	case 1:
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionCapella, Capella: &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{
			Slot: slot, ProposerIndex: idx, Body: &capella.BeaconBlockBody{ExecutionPayload: &capella.ExecutionPayload{
				BlockNumber: p.number, GasUsed: p.gasUsed, BaseFeePerGas: le, FeeRecipient: fee, Transactions: txs}}}}}
	}
	dp := &deneb.ExecutionPayload{BlockNumber: p.number, GasUsed: p.gasUsed, BaseFeePerGas: &uint256.Int{p.baseFee[0], p.baseFee[1], p.baseFee[2], p.baseFee[3]}, FeeRecipient: fee, Transactions: txs}
	if fork == 2 {
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionDeneb, Deneb: &deneb.SignedBeaconBlock{Message: &deneb.BeaconBlock{
			Slot: slot, ProposerIndex: idx, Body: &deneb.BeaconBlockBody{ExecutionPayload: dp}}}}
	}
	eb := &electra.SignedBeaconBlock{Message: &electra.BeaconBlock{Slot: slot, ProposerIndex: idx, Body: &electra.BeaconBlockBody{ExecutionPayload: dp}}}
	if fork == 3 {
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionElectra, Electra: eb}
	}
	return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionFulu, Fulu: eb}
}

func vAltair(slot, proposer uint64) *spec.VersionedSignedBeaconBlock {
	return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionAltair, Altair: &altair.SignedBeaconBlock{Message: &altair.BeaconBlock{
		Slot: phase0.Slot(slot), ProposerIndex: phase0.ValidatorIndex(proposer)}}}
}

// vPickN: one of n cases, or of the first ones only where the harness is bounded to those.
func vPickN(name string, n int) int { return vPick(name, vParam("n_"+name, n)) }

// vShapedBlock: any block as far as the classification looks at it.
type vShapedBlock struct {
	fb        *FullBlock
	p         *vPayload
	feeIsPool bool
	mev       bool     // the last transaction is the payment of a builder
	value     *big.Int // of the last transaction
	mevToPool bool
	tip       *big.Int
	events    []*contract.ContractEtherReceived
	first     int // index of the first event of the amount of the last transaction, or -1
	proposer  uint64
}

// vShape: a block of any fork with 0..n transactions; fee recipient the pool, the builder or anybody; last transaction by
// the fee recipient, a whitelisted builder or anybody, to the pool, to anybody or creating a contract; any EtherReceived events.
func (e *vEnv) vShape(maxTx, nEvents int) *vShapedBlock {
	b := &vShapedBlock{first: -1, value: big.NewInt(0), tip: big.NewInt(0)}
	b.proposer = vBase + uint64(vPickN("proposer", e.n+1))
	WhitelistedBuilders = map[uint64][]string{
		MainnetChainId: {vKeyAddr2}, HoleskyChainId: {}, HoodiChainId: {},
	}
	fee := []string{vPool, vKeyAddr1, vOther}[vPickN("feeRecipient", 3)]
	b.feeIsPool = fee == vPool
	b.p = &vPayload{slot: e.slot, proposer: b.proposer, number: e.block, feeRecipient: fee}
	b.fb = e.fullBlock(b.proposer, vCredOf(vAddrOf(7), byte(vPickN("cred", 4))))
	pool, other := common.HexToAddress(vPool), common.HexToAddress(vOther)
	ntx := vPick("txs", maxTx+1)
	var receipts = make([]*types.Receipt, 0)
	for i := 0; i < ntx; i++ {
		price := vBig("price", 64)
		to := &other
		signer := 2
		value := vBig("value", 80)
		if i == ntx-1 {
			switch vPickN("to", 3) {
			case 0:
				to = nil
			case 1:
				to = &pool
			}
			signer = vPickN("signer", 3)
			b.value = new(big.Int).Set(value)
			fromFee := signer == 0 && fee == vKeyAddr1
			fromListed := signer == 1 && e.net == Mainnet
			b.mev = to != nil && (fromFee || fromListed)
			b.mevToPool = to == &pool
		}
		raw := vMkTx(0, uint64(i), to, value, price, nil, signer, e.chain, nil)
		b.p.txs = append(b.p.txs, raw)
		receipts = append(receipts, &types.Receipt{TxHash: vTxHash(raw), GasUsed: 1, BlockNumber: new(big.Int).SetUint64(e.block)})
		b.tip.Add(b.tip, price)
	}
	for i := 0; i < nEvents; i++ {
		if vPick("event", 2) == 0 {
			break
		}
		a := vBig("received", 80)
		b.events = append(b.events, e.ether(new(big.Int).Set(a)))
		if b.first < 0 && b.value.Cmp(a) == 0 {
			b.first = i
		}
	}
	if b.first >= 0 {
		b.mevToPool = true
	}
	b.fb.SetConsensusBlock(vVersioned(vParam("fork", 0)+vPick("fork", vParam("forks", 1)), b.p))
	b.fb.SetHeaderAndReceipts(&types.Header{Number: new(big.Int).SetUint64(e.block), BaseFee: big.NewInt(0)}, receipts)
	b.fb.SetEvents(&Events{EtherReceived: b.events})
	return b
}

func vShapeEnv() *vEnv {
	e := vNewEnv(1, vPickN("net", 3))
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	return e
}

// vPoolCase: the pool's address as it may be written in the configuration.
func vPoolCase() string {
	if vPick("case", 2) == 1 {
		return common.HexToAddress(vPool).String() // checksummed
	}
	return vPool
}

// asFetched: the receipts are only there if the oracle needs them (C28).
func (b *vShapedBlock) asFetched(e *vEnv) {
	subscribed := false
	if v, ok := e.or.State().Validators[b.proposer]; ok {
		subscribed = vForce(vSubscribed(v.ValidatorStatus))
	}
	if !(b.feeIsPool || (b.mev && b.mevToPool) || subscribed) {
		b.fb.ExecutionHeader, b.fb.ExecutionReceipts = nil, nil
	}
}

// vC18Classify: kind, reward and bookkeeping of any block.
func vC18Classify() {
	e := vShapeEnv()
	b := e.vShape(vParam("txs", 2), vParam("events", 1))
	b.asFetched(e)
	pool := vPoolCase()
	var s SummarizedBlock
	r := vTry(func() { s = b.fb.SummarizedBlock(e.or, pool) })
	vAssert(r == 0, "every block can be classified")
	vReach("classified")
	st := e.or.State().Validators
	subscribed := false
	if v, ok := st[b.proposer]; ok {
		subscribed = vForce(vSubscribed(v.ValidatorStatus))
	}
	vanilla := b.feeIsPool || !b.mev
	paid := b.feeIsPool || (b.mev && b.mevToPool)
	cred := b.fb.Validator.Validator.WithdrawalCredentials[0]
	if paid {
		if cred == 1 || cred == 2 {
			vAssert(s.BlockType == OkPoolProposal, "a block that pays the pool counts as such")
		} else {
			vAssert(s.BlockType == OkPoolProposalBlsKeys, "a block that pays the pool of a proposer without an execution address counts as such")
		}
	} else {
		vAssert(s.BlockType == WrongFeeRecipient, "a block that does not pay the pool counts as such")
	}
	if paid || subscribed {
		if vanilla {
			vAssert(vEq(s.Reward, b.tip), "the reward of a vanilla block is its tips")
			vAssert(s.RewardType == VanilaBlock, "recorded as a vanilla block")
		} else {
			vAssert(vEq(s.Reward, b.value), "the reward of an MEV block is the payment of the builder")
			vAssert(s.RewardType == MevBlock, "recorded as an MEV block")
		}
	}
	vAssert(vAnd(s.Slot == e.slot, s.Block == e.block, s.ValidatorIndex == b.proposer), "recorded with its slot, number and proposer")
	vAssert(vEqStr(s.ValidatorKey, vKeyText(b.proposer)), "recorded with the key of its proposer")
	if cred == 1 || cred == 2 {
		vAssert(vEqStr(s.WithdrawalAddress, vAddrOf(7)), "recorded with the withdrawal address")
	}
}

// vC18Missed: a slot without a block.
func vC18Missed() {
	e := vShapeEnv()
	proposer := vBase + uint64(vPick("proposer", 2))
	cred := vCredOf(vAddrOf(7), byte(vPick("cred", 4)))
	fb := e.fullBlock(proposer, cred)
	var s SummarizedBlock
	r := vTry(func() { s = fb.SummarizedBlock(e.or, vPoolCase()) })
	vAssert(r == 0, "every missed block can be classified")
	vReach("missed")
	vAssert(s.BlockType == MissedProposal, "a slot without a block is a missed proposal")
	vAssert(vAnd(s.Slot == e.slot, s.ValidatorIndex == proposer, s.Reward.Sign() == 0), "recorded with its slot and proposer and no reward")
	vAssert(vEqStr(s.ValidatorKey, vKeyText(proposer)), "recorded with the key of its proposer")
	vAssert(len(fb.GetDonations(vPool)) == 0, "a slot without a block has no donations")
}

// vC18Attach: only data of the very block is accepted.
func vC18Attach() {
	e := vShapeEnv()
	proposer := vU64("proposer")
	fork := vPick("fork", 6)
	fb := e.fullBlock(proposer, vCredOf(vAddrOf(7), 1))
	p := &vPayload{slot: vU64("blockSlot"), proposer: vU64("blockProposer"), number: e.block, feeRecipient: vOther}
	var blk *spec.VersionedSignedBeaconBlock
	if fork == 5 {
		blk = vAltair(p.slot, p.proposer)
	} else {
		blk = vVersioned(fork, p)
	}
	r := vTry(func() { fb.SetConsensusBlock(blk) })
	good := vAnd(p.slot == e.slot, p.proposer == proposer)
	vAssert(vIff(good, r == 0), "a block is accepted exactly if it is of the slot and by the proposer of the duty")
	vReach("attach")
	if r != 0 || fork == 5 {
		return
	}
	num := vU64("number2")
	what := vPick("what", 11)
	l := types.Log{BlockNumber: num, Address: common.HexToAddress(vPool), Topics: []common.Hash{}, Data: []byte{}}
	ev := &Events{}
	switch what {
	case 0:
		r = vTry(func() {
			fb.SetHeaderAndReceipts(&types.Header{Number: new(big.Int).SetUint64(num), BaseFee: big.NewInt(0)}, []*types.Receipt{})
		})
	case 1:
		r = vTry(func() {
			fb.SetHeaderAndReceipts(&types.Header{Number: new(big.Int).SetUint64(e.block), BaseFee: big.NewInt(0)},
				[]*types.Receipt{{BlockNumber: new(big.Int).SetUint64(num)}})
		})
	case 2:
		ev.EtherReceived = []*contract.ContractEtherReceived{{DonationAmount: big.NewInt(1), Raw: l}}
	case 3:
		ev.SubscribeValidator = []*contract.ContractSubscribeValidator{{SubscriptionCollateral: big.NewInt(1), Raw: l}}
	case 4:
		ev.UnsubscribeValidator = []*contract.ContractUnsubscribeValidator{{Raw: l}}
	case 5:
		ev.UpdatePoolFee = []*contract.ContractUpdatePoolFee{{NewPoolFee: big.NewInt(1), Raw: l}}
	case 6:
		ev.PoolFeeRecipient = []*contract.ContractUpdatePoolFeeRecipient{{Raw: l}}
	case 7:
		ev.CheckpointSlotSize = []*contract.ContractUpdateCheckpointSlotSize{{Raw: l}}
	case 8:
		ev.UpdateSubscriptionCollateral = []*contract.ContractUpdateSubscriptionCollateral{{NewSubscriptionCollateral: big.NewInt(1), Raw: l}}
	case 9:
		ev.ClaimRewards = []*contract.ContractClaimRewards{{Raw: l}}
	case 10:
		ev.SetRewardRecipient = []*contract.ContractSetRewardRecipient{{Raw: l}}
	}
	if what >= 2 {
		r = vTry(func() { fb.SetEvents(ev) })
	}
	vAssert(vIff(num == e.block, r == 0), "headers, receipts and events are accepted exactly if they are of the block")
}

// vC21Donations: exactly the ether that is not the reward of the block counts as donations.
func vC21Donations() {
	e := vShapeEnv()
	b := e.vShape(vParam("txs", 1), vParam("events", 3))
	b.asFetched(e)
	toPool := b.mev && b.mevToPool && !b.feeIsPool
	// the contract emits EtherReceived for whatever reaches it
	vAssume(vOr(!toPool, b.first >= 0))
	var got []*contract.ContractEtherReceived
	r := vTry(func() { got = b.fb.GetDonations(vPoolCase()) })
	vAssert(r == 0, "the donations of every block can be told")
	vReach("donations")
	want := append([]*contract.ContractEtherReceived{}, b.events...)
	if toPool {
		vReach("filtered")
		want = append(want[:b.first], want[b.first+1:]...)
	}
	vAssert(len(got) == len(want), "everything received except the reward is a donation")
	for i := range want {
		if i < len(got) {
			vAssert(vEq(got[i].DonationAmount, want[i].DonationAmount), "donations keep their amounts and order")
		}
	}
}

// vC21Reverted: the payment of the builder to the pool failed, so no EtherReceived event was emitted.
func vC21Reverted() {
	e := vShapeEnv()
	b := e.vShape(1, 1)
	vAssume(b.mev && b.mevToPool && !b.feeIsPool && b.first < 0)
	r := vTry(func() { b.fb.GetDonations(vPool) })
	vReach("reverted")
	vAssert(r == 0, "reverted-builder-payment")
}

// vC19Tip: the reward of a vanilla block is what its transactions paid above the base fee.
func vC19Tip() {
	e := vShapeEnv()
	n := vParam("txs", 2)
	var base [4]uint64
	for i := 0; i < vParam("words", 2); i++ {
		base[i] = vU64("baseFee")
	}
	fork := vParam("fork", 0) + vPick("fork", vParam("forks", 5))
	p := &vPayload{slot: e.slot, proposer: vBase, number: e.block, feeRecipient: vPool, baseFee: base}
	other := common.HexToAddress(vOther)
	fb := e.fullBlock(vBase, vCredOf(vAddrOf(7), 1))
	receipts := make([]*types.Receipt, 0)
	want := new(big.Int)
	bf := new(big.Int)
	for i := 3; i >= 0; i-- {
		bf.Mul(bf, new(big.Int).Lsh(big.NewInt(1), 64))
		bf.Add(bf, new(big.Int).SetUint64(base[i]))
	}
	for i := 0; i < n; i++ {
		kind := vPick("kind", 6)
		price, tip := vBig("price", vParam("bits", 130)), vBig("tip", vParam("bits", 130))
		vAssume(price.Cmp(bf) >= 0) // otherwise the transaction is not valid in the block
		vAssume(tip.Cmp(price) <= 0)
		gas := uint64(vInt("gas", 21000, 60000000))
		raw := vMkTx(kind, uint64(i), &other, vBig("value", 80), price, tip, 2, e.chain, nil)
		p.txs = append(p.txs, raw)
		p.gasUsed += gas
		receipts = append(receipts, &types.Receipt{TxHash: vTxHash(raw), GasUsed: gas, BlockNumber: new(big.Int).SetUint64(e.block)})
		// effective gas price (EIP-1559) above the base fee
		above := new(big.Int).Sub(price, bf)
		if kind >= 2 && kind <= 4 {
			above = vIteBig(tip.Cmp(above) < 0, tip, above)
		}
		want.Add(want, new(big.Int).Mul(above, new(big.Int).SetUint64(gas)))
	}
	fb.SetConsensusBlock(vVersioned(fork, p))
	fb.SetHeaderAndReceipts(&types.Header{Number: new(big.Int).SetUint64(e.block), BaseFee: new(big.Int).Set(bf)}, receipts)
	var got *big.Int
	var err error
	r := vTry(func() { got, err = fb.GetProposerTip() })
	vAssert(r == 0 && err == nil, "the tips of every block can be computed")
	vReach("tip")
	if got != nil {
		vAssert(vEq(got, want), "the reward is the sum of the effective priority fees")
	}
	// other processing of the block gives the same again
	got2, err2 := fb.GetProposerTip()
	vAssert(err2 == nil && vEq(got2, want), "computing it again changes nothing")
}

// vC19Mismatch: receipts that are not those of the transactions are never used.
func vC19Mismatch() {
	e := vShapeEnv()
	p := &vPayload{slot: e.slot, proposer: vBase, number: e.block, feeRecipient: vPool}
	other := common.HexToAddress(vOther)
	fb := e.fullBlock(vBase, vCredOf(vAddrOf(7), 1))
	var raws [][]byte
	n := vPick("txs", 3)
	for i := 0; i < n; i++ {
		raws = append(raws, vMkTx(0, uint64(i), &other, big.NewInt(1), big.NewInt(5), nil, 2, e.chain, nil))
	}
	p.txs = raws
	good := true
	receipts := make([]*types.Receipt, 0)
	m := vPick("receipts", 4)
	for i := 0; i < m; i++ {
		h := common.HexToHash("0x1234")
		if n > 0 {
			k := vPick("of", n+1)
			if k < n {
				h = vTxHash(raws[k])
			}
			good = good && k == i
		}
		receipts = append(receipts, &types.Receipt{TxHash: h, GasUsed: 7, BlockNumber: new(big.Int).SetUint64(e.block)})
	}
	good = good && n == m
	fb.SetConsensusBlock(vVersioned(1+vPick("fork", 2), p))
	attached := vPick("attached", 3)
	switch attached {
	case 1:
		fb.SetHeaderAndReceipts(&types.Header{Number: new(big.Int).SetUint64(e.block), BaseFee: big.NewInt(0)}, receipts)
	case 2:
		fb.ExecutionReceipts = receipts
	}
	var got *big.Int
	var err error
	r := vTry(func() { got, err = fb.GetProposerTip() })
	vAssert(r == 0, "computing the tips does not abort")
	vReach("mismatch")
	if attached == 1 && good {
		vAssert(err == nil, "matching receipts give a reward")
	} else {
		vAssert(err != nil, "receipts that do not match give an error")
		vAssert(got == nil, "receipts that do not match give no reward")
	}
}

// vC20Credentials: every 32 byte value of withdrawal credentials.
func vC20Credentials() {
	n := []int{32, 31, 33, 0}[vPick("len", 4)]
	cred := vBytes("cred", n)
	v := &v1.Validator{Index: 5, Validator: &phase0.Validator{WithdrawalCredentials: cred}}
	addr, typ := "", WithdrawalType(0)
	r := vTry(func() { addr, typ = GetWithdrawalAndType(v) })
	addr2, err := utils.GetCompatibleAddressByte(cred)
	hexed := hex.EncodeToString(cred)
	addr3, err3 := utils.GetCompatibleAddress(hexed)
	vReach("credentials")
	if n != 32 {
		vAssert(r == 2, "credentials of another length are refused")
		vAssert(err != nil && err3 != nil, "credentials of another length have no address")
		vAssert(vNot(vOr(utils.IsBlsType(hexed), utils.IsEth1Type(hexed), utils.IsElectraType(hexed))), "credentials of another length have no type")
		return
	}
	pad := true
	for i := 1; i < 12; i++ {
		pad = vAnd(pad, cred[i] == 0)
	}
	exec1, exec2 := vAnd(cred[0] == 1, pad), vAnd(cred[0] == 2, pad)
	isExec := vForce(vOr(exec1, exec2))
	vAssert(r == 0, "every value of the credentials is accepted")
	vAssert(vIff(typ == Eth1Withdrawal, exec1), "type 1 exactly for 0x01 credentials")
	vAssert(vIff(typ == ElectraWithdrawal, exec2), "type 2 exactly for 0x02 credentials")
	vAssert((err == nil) == isExec && (err3 == nil) == isExec, "an address exactly for 0x01 and 0x02 credentials")
	vAssert(vIff(utils.IsEth1Type(hexed), exec1), "IsEth1Type exactly for 0x01 credentials")
	vAssert(vIff(utils.IsElectraType(hexed), exec2), "IsElectraType exactly for 0x02 credentials")
	vAssert(vIff(utils.IsBlsType(hexed), cred[0] == 0), "IsBlsType exactly for 0x00 credentials")
	if isExec {
		want := "0x" + hex.EncodeToString(cred[12:])
		vAssert(vEqStr(addr, want), "the address is the last 20 bytes")
		vAssert(vEqStr(addr2, want), "the address is the last 20 bytes (bytes)")
		vAssert(vEqStr(addr3, want), "the address is the last 20 bytes (hex)")
	} else {
		vAssert(typ == BlsWithdrawal, "anything else is treated like BLS credentials")
	}
}

// vC18Forks: the same for every fork's block format.
func vC18Forks() { vC18Classify() }
