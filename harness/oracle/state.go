package oracle

// Shared builders: arbitrary (symbolic) oracle states and blocks.

import (
	"math/big"
	"strconv"
	"strings"

	"github.com/avast/retry-go/v4"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
)

const (
	vPool    = "0xadfb8d27671f14f297ee94135e266aaff8752e35"
	vPoolFee = "0x00000000000000000000000000000000000000fe"
	vOther   = "0x0000000000000000000000000000000000c0ffee"
	// address of test key 1 (see vMkTx)
	vKeyAddr1 = "0x7e5f4552091a69125d5dfcb7b8c2659029395bdf"
	vKeyAddr2 = "0x2b5ad5c4795c026514f8317c7a215e218dccd6cf"
	vBase     = uint64(100)
)

func vAddrOf(i int) string {
	return "0x00000000000000000000000000000000000000a" + string(rune('0'+i))
}

func vNetwork(pick int) (string, uint64) {
	switch pick {
	case 0:
		return Mainnet, MainnetChainId
	case 1:
		return Hoodi, HoodiChainId
	}
	return Holesky, HoleskyChainId
}

type vEnv struct {
	or      *Oracle
	net     string
	chain   uint64
	slot    uint64
	block   uint64
	n       int
	cfg     *Config
	eb      map[uint64]uint64
	beacon  map[uint64]v1.ValidatorState
	asked   []string
	consol  []PendingConsolidation
	addrs   map[uint64]string
	fills   []uint64
	nCalls  int
	nConsol int
}

// vNewEnv: an oracle in an arbitrary state with n tracked validators: indices 100..100+n-1 (concrete, distinct),
// arbitrary status, arbitrary non-negative balances, arbitrary fee, any slot of the network's life.
func vNewEnv(n int, net int) *vEnv {
	e := &vEnv{n: n, eb: map[uint64]uint64{}, beacon: map[uint64]v1.ValidatorState{}, addrs: map[uint64]string{}}
	e.net, e.chain = vNetwork(net)
	fee := int(vInt("fee", 0, 10000))
	e.slot = vU64("slot")
	deployed := vU64("deployed")
	vAssume(vAnd(deployed >= 1, deployed <= e.slot, e.slot < 1<<40))
	e.block = vU64("block")
	cfg := &Config{
		Network: e.net, PoolAddress: vPool, DeployedSlot: deployed, DeployedBlock: 5, CheckPointSizeInSlots: 7200,
		PoolFeesPercentOver10000: fee, PoolFeesAddress: vPoolFee, CollateralInWei: vBig("minCollateral", 96),
	}
	e.cfg = cfg
	e.or = NewOracle(cfg)
	st := e.or.State()
	st.NextSlotToProcess = e.slot
	st.LatestProcessedSlot = e.slot - 1
	st.LatestProcessedBlock = vU64("latestBlock")
	st.PoolAccumulatedFees = vBig("poolFees", 96)
	for i := 0; i < n; i++ {
		idx := vBase + uint64(i)
		e.addrs[idx] = vAddrOf(i)
		st.Validators[idx] = &ValidatorInfo{
			ValidatorStatus:       ValidatorStatus(vInt("status", 1, 5)),
			AccumulatedRewardsWei: vBig("acc", 96),
			PendingRewardsWei:     vBig("pend", 96),
			CollateralWei:         big.NewInt(1),
			WithdrawalAddress:     e.addrs[idx],
			ValidatorIndex:        idx,
			ValidatorKey:          "0xab",
			SubscriptionType:      SubscriptionType(vInt("subtype", 0, 1)),
		}
		e.eb[idx] = uint64(vInt("eb", 1, 2048000000000))
	}
	// and many more with a history: of every status in turn, with any balances
	for k := 0; k < vParam("fill", 0); k++ {
		idx := vBase + 1000 + uint64(k)
		e.addrs[idx] = vFillAddr(k)
		st.Validators[idx] = &ValidatorInfo{
			ValidatorStatus:       ValidatorStatus(1 + k%5),
			AccumulatedRewardsWei: vBig("acc", 96),
			PendingRewardsWei:     vBig("pend", 96),
			CollateralWei:         big.NewInt(1),
			WithdrawalAddress:     e.addrs[idx],
			ValidatorIndex:        idx,
			ValidatorKey:          "0xab",
		}
		e.eb[idx] = 32000000000 * uint64(1+k%3)
		old := SummarizedBlock{Slot: uint64(k), Block: uint64(k), ValidatorIndex: idx, ValidatorKey: "0xab", Reward: big.NewInt(int64(k)), WithdrawalAddress: e.addrs[idx]}
		st.ProposedBlocks = append(st.ProposedBlocks, old)
		st.MissedBlocks = append(st.MissedBlocks, old)
		st.WrongFeeBlocks = append(st.WrongFeeBlocks, old)
		e.fills = append(e.fills, idx)
	}
	e.or.SetGetSetOfValidatorsFunc(e.getSet)
	e.or.GetPendingConsolidationsFunc(e.getConsol)
	if vParam("warm", 0) > 0 {
		e.warm()
	}
	return e
}

// warm: the same oracle processed the slot before, with other effective balances, an amount shared and a change of the
// status of the first validator after that; whatever it may remember of it must not matter.
func (e *vEnv) warm() {
	eb, slot, block := e.eb, e.slot, e.block
	e.eb = map[uint64]uint64{}
	e.slot--
	vAssume(vAnd(e.cfg.DeployedSlot <= e.slot, e.slot%1200 != 0, vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1))))
	e.block = vU64("blockBefore")
	st := e.or.State()
	st.NextSlotToProcess--
	st.LatestProcessedSlot--
	proposer := vBase + 77
	kind := vPick("warm", vParam("warm", 0))
	if kind >= 2 {
		proposer = vBase
	}
	fb := e.fullBlock(proposer, vCredOf(vAddrOf(0), 1))
	ev := &Events{EtherReceived: []*contract.ContractEtherReceived{e.ether(vBig("donationBefore", 96))}}
	switch kind {
	case 0:
		ev.BanValidator = append(ev.BanValidator, e.banEvent(vBase))
		e.propose(fb, 4, big.NewInt(1), ev)
	case 1:
		ev.UnbanValidator = append(ev.UnbanValidator, e.unbanEvent(vBase))
		e.propose(fb, 4, big.NewInt(1), ev)
	case 2:
		e.propose(fb, 1, vBig("rewardBefore", 96), ev)
	case 3:
		e.propose(fb, 0, nil, ev)
	}
	var err error
	code := vTry(func() { _, err = e.or.AdvanceStateToNextSlot(fb) })
	vAssume(code == 0 && err == nil) // C05
	for _, v := range st.Validators {
		vAssume(vAnd(v.PendingRewardsWei.Sign() >= 0, v.AccumulatedRewardsWei.Sign() >= 0)) // C05
	}
	e.eb, e.slot, e.block = eb, slot, block
	e.asked, e.nCalls, e.nConsol = nil, 0, 0
}

// vFillAddr: the withdrawal address of the k-th of many validators.
func vFillAddr(k int) string {
	return strings.ToLower(common.BigToAddress(big.NewInt(int64(0x7000 + 977*k%4096))).Hex())
}

// ids: the indices of all the tracked validators.
func (e *vEnv) ids() []uint64 {
	var l []uint64
	for i := 0; i < e.n; i++ {
		l = append(l, vBase+uint64(i))
	}
	return append(l, e.fills...)
}

// getSet: the beacon node contract: returns exactly the requested validators.
func (e *vEnv) getSet(ix []phase0.ValidatorIndex, slot string, opts ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
	e.nCalls++
	e.asked = append(e.asked, slot)
	out := make(map[phase0.ValidatorIndex]*v1.Validator)
	for _, i := range ix {
		eb, ok := e.eb[uint64(i)]
		if !ok {
			eb = 32000000000
		}
		st, ok := e.beacon[uint64(i)]
		if !ok {
			st = v1.ValidatorStateActiveOngoing
		}
		out[i] = vValidator(uint64(i), vCredOf(e.addrOf(uint64(i)), 1), st, eb)
	}
	return out, nil
}

func (e *vEnv) addrOf(idx uint64) string {
	if a, ok := e.addrs[idx]; ok {
		return a
	}
	return vOther
}

func (e *vEnv) getConsol(stateID string, opts ...retry.Option) (*PendingConsolidationsResponse, error) {
	e.nConsol++
	return &PendingConsolidationsResponse{Data: e.consol}, nil
}

// vCredOf builds 32 byte withdrawal credentials of the given prefix (0 BLS, 1, 2).
func vCredOf(addr string, prefix byte) []byte {
	c := make([]byte, 32)
	c[0] = prefix
	copy(c[12:], common.HexToAddress(addr).Bytes())
	return c
}

func vValidator(idx uint64, cred []byte, st v1.ValidatorState, eb uint64) *v1.Validator {
	return &v1.Validator{
		Index:  phase0.ValidatorIndex(idx),
		Status: st,
		Validator: &phase0.Validator{
			WithdrawalCredentials: cred,
			EffectiveBalance:      phase0.Gwei(eb),
			PublicKey:             vKeyOf(idx),
			Slashed:               vOr(st == v1.ValidatorStateActiveSlashed, st == v1.ValidatorStateExitedSlashed),
		},
	}
}

// vKeyOf: every validator has a key of its own.
func vKeyOf(idx uint64) (k phase0.BLSPubKey) {
	k[0], k[46], k[47] = 0xb5, byte(idx>>8), byte(idx)
	return k
}

func vKeyText(idx uint64) string {
	k := vKeyOf(idx)
	return hexutil.Encode(k[:])
}

func vLog(block uint64) types.Log {
	return types.Log{Address: common.HexToAddress(vPool), BlockNumber: block, Topics: []common.Hash{common.HexToHash("0x01")}, Data: []byte{}}
}

func (e *vEnv) ether(amount *big.Int) *contract.ContractEtherReceived {
	return &contract.ContractEtherReceived{Sender: common.HexToAddress(vOther), DonationAmount: amount, Raw: vLog(e.block)}
}

// vBlock: the block of the slot. proposer: validator index; cred: its withdrawal credentials.
func (e *vEnv) fullBlock(proposer uint64, cred []byte) *FullBlock {
	return NewFullBlock(
		&v1.ProposerDuty{Slot: phase0.Slot(e.slot), ValidatorIndex: phase0.ValidatorIndex(proposer), PubKey: vKeyOf(proposer)},
		vValidator(proposer, cred, v1.ValidatorStateActiveOngoing, 32000000000),
		e.chain)
}

// setProposed attaches a consensus block (Capella) with the given fee recipient and transactions, and the
// header/receipts matching them (1 gas per transaction, base fee 0).
func (e *vEnv) setProposed(fb *FullBlock, feeRecipient string, txs ...[]byte) {
	p := &capella.ExecutionPayload{BlockNumber: e.block, FeeRecipient: bellatrix.ExecutionAddress(common.HexToAddress(feeRecipient))}
	receipts := make([]*types.Receipt, 0)
	for _, t := range txs {
		p.Transactions = append(p.Transactions, bellatrix.Transaction(t))
		receipts = append(receipts, &types.Receipt{TxHash: vTxHash(t), GasUsed: 1, BlockNumber: new(big.Int).SetUint64(e.block)})
	}
	fb.SetConsensusBlock(&spec.VersionedSignedBeaconBlock{
		Version: spec.DataVersionCapella,
		Capella: &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{
			Slot: phase0.Slot(e.slot), ProposerIndex: fb.ConsensusDuty.ValidatorIndex,
			Body: &capella.BeaconBlockBody{ExecutionPayload: p},
		}},
	})
	fb.SetHeaderAndReceipts(&types.Header{Number: new(big.Int).SetUint64(e.block), BaseFee: big.NewInt(0)}, receipts)
}

func vLiab(st *OracleState) *big.Int {
	t := new(big.Int).Set(st.PoolAccumulatedFees)
	for _, v := range st.Validators {
		t.Add(t, v.AccumulatedRewardsWei)
		t.Add(t, v.PendingRewardsWei)
	}
	return t
}

func vEq(a, b *big.Int) bool { return a.Cmp(b) == 0 }

type vSnap struct {
	status    ValidatorStatus
	acc, pend *big.Int
	sub       SubscriptionType
}

func (e *vEnv) snap() map[uint64]vSnap {
	m := map[uint64]vSnap{}
	for i, v := range e.or.State().Validators {
		m[i] = vSnap{v.ValidatorStatus, new(big.Int).Set(v.AccumulatedRewardsWei), new(big.Int).Set(v.PendingRewardsWei), v.SubscriptionType}
	}
	return m
}

func vSubscribed(s ValidatorStatus) bool {
	return vOr(s == Active, s == YellowCard, s == RedCard)
}

func vEligible(s ValidatorStatus) bool { return vOr(s == Active, s == YellowCard) }

func vSlotStr(s uint64) string { return strconv.FormatUint(s, 10) }

// vPropose attaches one of the kinds of block outcome to fb and returns the expected vanilla income of the pool.
// 0 missed, 1 vanilla to pool, 2 MEV to pool, 3 MEV elsewhere, 4 vanilla elsewhere, 5 MEV to pool through a contract
func (e *vEnv) propose(fb *FullBlock, kind int, reward *big.Int, ev *Events) {
	other, pool := common.HexToAddress(vOther), common.HexToAddress(vPool)
	switch kind {
	case 0:
		return
	case 1:
		e.setProposed(fb, vPool, vMkTx(0, 0, &other, big.NewInt(3), reward, nil, 0, e.chain, nil))
	case 2:
		e.setProposed(fb, vKeyAddr1, vMkTx(0, 0, &pool, reward, big.NewInt(1), nil, 0, e.chain, nil))
		ev.EtherReceived = append(ev.EtherReceived, e.ether(reward))
	case 3:
		e.setProposed(fb, vKeyAddr1, vMkTx(0, 0, &other, reward, big.NewInt(1), nil, 0, e.chain, nil))
	case 4:
		e.setProposed(fb, vOther, vMkTx(0, 0, &other, big.NewInt(3), reward, nil, 0, e.chain, nil))
	case 5:
		e.setProposed(fb, vKeyAddr1, vMkTx(0, 0, &other, reward, big.NewInt(1), nil, 0, e.chain, nil))
		ev.EtherReceived = append(ev.EtherReceived, e.ether(reward))
	}
	fb.SetEvents(ev)
}

func (e *vEnv) banEvent(idx uint64) *contract.ContractBanValidator {
	return &contract.ContractBanValidator{ValidatorID: idx, Raw: vLog(e.block)}
}

func (e *vEnv) unbanEvent(idx uint64) *contract.ContractUnbanValidator {
	return &contract.ContractUnbanValidator{ValidatorID: idx, Raw: vLog(e.block)}
}
