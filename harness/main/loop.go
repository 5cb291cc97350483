package main

// The main loop against a chain that does whatever it likes: finality, sync, other oracles, failures.

import (
	"context"
	"crypto/ecdsa"
	"errors"
	"math/big"
	"time"

	"github.com/attestantio/go-eth2-client/api"
	v1 "github.com/attestantio/go-eth2-client/api/v1"
	chttp "github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/dappnode/mev-sp-oracle/utils"
	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
)

const (
	vPool    = "0xadfb8d27671f14f297ee94135e266aaff8752e35"
	vPoolFee = "0x00000000000000000000000000000000000000fe"
	vAddr    = "0x00000000000000000000000000000000000000a0"
	vUpdater = "0x7e5f4552091a69125d5dfcb7b8c2659029395bdf"
)

type vReport struct {
	slot uint64
	root [32]byte
}

type vLoopEnv struct {
	or         *oracle.Oracle
	oc         *oracle.Onchain
	cfg        *oracle.Config
	deployed   uint64
	first      uint64
	rounds     int
	sleeps     int
	stopped    bool
	synced     bool
	finKnown   bool
	fin        uint64
	next       uint64 // the slot to be processed next
	chain      vReport
	voted      uint64 // slot of our last report on the contract
	read       bool   // the contract's slot was read since the last change
	reports    []vReport
	mined      bool
	quorum     bool
	saves      int
	saved      bool // the slot processed last is saved
	balanced   bool
	calls      int
	failAt     int
	failed     bool
	askedAt    []uint64
	claims     int
	want       uint64
	idle       bool
	reconciled bool
	insolvent  bool
	reverted   bool // the transaction with our report failed
	pending    bool // the oracle was stopped after the slot of a checkpoint, before the checkpoint was frozen
	turns      int  // rounds in which something could be done
}

var vNodeDown = errors.New("Get \"http://node:4040/eth/v2/beacon/blocks/7404123\": no answer")

func (e *vLoopEnv) step() error {
	e.calls++
	if e.calls-1 == e.failAt {
		e.failed = true
		return vNodeDown
	}
	return nil
}

type vStop struct{}

func (e *vLoopEnv) stop() {
	e.stopped = true
	panic(vStop{})
}

var vEnvNow *vLoopEnv

func vSleep(d time.Duration) {
	e := vEnvNow
	e.sleeps++
	vAssert(!e.reverted, "the loop stops when its report is refused")
	if e.sleeps > vParam("sleeps", 2) {
		st := e.or.LatestCommitedState()
		if st != nil && st.Slot == e.next-1 && !e.saved {
			// the checkpoint just reached is not saved yet
			submitted := len(e.reports) > 0 && e.reports[len(e.reports)-1].slot == st.Slot
			vAssert(submitted || e.voted == st.Slot || !e.cfg.DryRun && vForce(e.chain.slot+e.cfg.CheckPointSizeInSlots == st.Slot), "it only waits for the checkpoint it voted for")
		}
		e.stop()
	}
	e.meanwhile()
}

// meanwhile: time passes and the other oracles report too.
func (e *vLoopEnv) meanwhile() {
	st := e.or.LatestCommitedState()
	if st == nil || e.chain.slot == st.Slot {
		return
	}
	switch vPick("meanwhile", vParam("others", 3)) {
	case 1:
		// the quorum is reached
		copy(e.chain.root[:], common.FromHex(st.MerkleRoot))
		e.chain.slot = st.Slot
		e.read = false
		e.quorum = true
	case 2:
		// the quorum is reached by oracles that disagree
		copy(e.chain.root[:], common.FromHex(st.MerkleRoot))
		e.chain.root[31] ^= 0x5a
		e.chain.slot = st.Slot
		e.read = false
	}
}

func vIntn(n int) int { return 7 }

func vNow() time.Time { return time.Unix(1700000000, 0) }

func vDeadline(ctx context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return context.Background(), func() {}
}

func vLoop(size uint64, dry bool) *vLoopEnv {
	e := &vLoopEnv{failAt: -1, balanced: true}
	vEnvNow = e
	// at the start of an epoch, across two, and across an update of the validators
	e.deployed = []uint64{4700005, 4700030, 4700398}[vPick("deployed", vParam("deployments", 3))]
	// a few slots after the deployment, or a checkpoint later
	e.first = e.deployed + uint64(vPick("processed", vParam("span", 2)))*size
	e.next = e.first + 1
	e.cfg = &oracle.Config{Network: oracle.Hoodi, PoolAddress: vPool, DeployedSlot: e.deployed, DeployedBlock: 5, CheckPointSizeInSlots: size,
		PoolFeesPercentOver10000: 700, PoolFeesAddress: vPoolFee, CollateralInWei: big.NewInt(1), DryRun: dry, NumRetries: 1}
	e.or = oracle.NewOracle(e.cfg)
	st := e.or.State()
	st.NextSlotToProcess = e.next
	st.LatestProcessedSlot = e.next - 1
	st.LatestProcessedBlock = 77
	st.PoolAccumulatedFees = big.NewInt(70)
	if vPick("data", 2) == 0 {
		st.Validators[100] = &oracle.ValidatorInfo{ValidatorStatus: oracle.Active, AccumulatedRewardsWei: big.NewInt(1000), PendingRewardsWei: big.NewInt(5),
			CollateralWei: big.NewInt(1), WithdrawalAddress: vAddr, ValidatorIndex: 100, ValidatorKey: "0xab"}
		paid := big.NewInt(1075)
		if vPick("books", 2) == 1 {
			paid = big.NewInt(1074)
			e.balanced = false
		}
		st.EtherReceivedEvents = append(st.EtherReceivedEvents, &contract.ContractEtherReceived{DonationAmount: paid, Raw: types.Log{Topics: []common.Hash{}, Data: []byte{}}})
	} else {
		st.PoolAccumulatedFees = big.NewInt(0)
	}
	// the run before was stopped (and saved) between the slot of the checkpoint and the freezing of it, or after that
	if vParam("stops", 1) == 1 && vPick("stopped", 2) == 1 {
		e.pending = true
	} else {
		e.or.FreezeCheckpoint()
		e.saved = true
	}
	e.oc = oracle.VOnchain(1, &ecdsa.PrivateKey{}, common.HexToAddress(vUpdater), vPool, oracle.HoodiChainId)
	return e
}

func (e *vLoopEnv) install() {
	e.or.SetGetSetOfValidatorsFunc(e.oc.GetSetOfValidators)
	e.or.GetPendingConsolidationsFunc(func(state string, opts ...retry.Option) (*oracle.PendingConsolidationsResponse, error) {
		return &oracle.PendingConsolidationsResponse{}, nil
	})
	oracle.ProposalDutyCache = oracle.EpochDuties{}
	retry.VStub_Do = func(f retry.RetryableFunc, opts ...retry.Option) error { return f() }
	ethclient.VStub_Client_SyncProgress = func(c *ethclient.Client, ctx context.Context) (*ethereum.SyncProgress, error) {
		e.roundDone()
		e.rounds++
		if e.rounds > vParam("rounds", 3) {
			e.stop()
		}
		if err := e.step(); err != nil {
			return nil, err
		}
		e.synced, e.finKnown = true, false
		switch vPick("sync", vParam("syncs", 2)) {
		case 1:
			e.synced = false
			return &ethereum.SyncProgress{CurrentBlock: 1, HighestBlock: 9}, nil
		}
		return nil, nil
	}
	chttp.VStub_Service_NodeSyncing = func(s *chttp.Service, ctx context.Context, o *api.NodeSyncingOpts) (*api.Response[*v1.SyncState], error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		d := vU64("distance")
		e.synced = vForce(vAnd(e.synced, d <= 5))
		return &api.Response[*v1.SyncState]{Data: &v1.SyncState{SyncDistance: phase0.Slot(d)}}, nil
	}
	chttp.VStub_Service_BeaconBlockHeader = func(s *chttp.Service, ctx context.Context, o *api.BeaconBlockHeaderOpts) (*api.Response[*v1.BeaconBlockHeader], error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		vAssert(o.Block == "finalized", "only the finalized head counts")
		e.fin = vU64("finalized")
		vAssume(e.fin < 1<<41)
		e.finKnown = true
		if e.synced && !e.failed {
			if e.turns++; e.turns == 1 && (e.pending || len(e.or.State().Validators) == 0) {
				// first of all the checkpoint (with nothing to freeze nothing tells whether it was tried)
			} else if vForce(e.fin >= e.next) {
				e.want = e.next + 1
			} else {
				e.idle = true
			}
		}
		return &api.Response[*v1.BeaconBlockHeader]{Data: &v1.BeaconBlockHeader{Header: &phase0.SignedBeaconBlockHeader{Message: &phase0.BeaconBlockHeader{Slot: phase0.Slot(e.fin)}}}}, nil
	}
	chttp.VStub_Service_Validators = func(s *chttp.Service, ctx context.Context, o *api.ValidatorsOpts) (*api.Response[map[phase0.ValidatorIndex]*v1.Validator], error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		out := map[phase0.ValidatorIndex]*v1.Validator{}
		ix := o.Indices
		if len(ix) == 0 {
			ix = []phase0.ValidatorIndex{0}
		}
		for _, i := range ix {
			out[i] = &v1.Validator{Index: i, Balance: 32000000000, Status: v1.ValidatorStateActiveOngoing,
				Validator: &phase0.Validator{WithdrawalCredentials: make([]byte, 32), EffectiveBalance: 32000000000, ActivationEpoch: 5}}
		}
		return &api.Response[map[phase0.ValidatorIndex]*v1.Validator]{Data: out}, nil
	}
	chttp.VStub_Service_ProposerDuties = func(s *chttp.Service, ctx context.Context, o *api.ProposerDutiesOpts) (*api.Response[[]*v1.ProposerDuty], error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		var ds []*v1.ProposerDuty
		for i := uint64(0); i < 32; i++ {
			ds = append(ds, &v1.ProposerDuty{Slot: phase0.Slot(uint64(o.Epoch)*32 + i), ValidatorIndex: 999999})
		}
		return &api.Response[[]*v1.ProposerDuty]{Data: ds}, nil
	}
	chttp.VStub_Service_SignedBeaconBlock = func(s *chttp.Service, ctx context.Context, o *api.SignedBeaconBlockOpts) (*api.Response[*spec.VersionedSignedBeaconBlock], error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		vAssert(e.synced, "slots are only processed while both nodes are in sync")
		vAssert(e.finKnown && vForce(e.next <= e.fin), "only finalized slots are processed")
		vAssert(vEqStr(o.Block, vDec(e.next)), "slots are processed one by one, in order")
		e.next++
		e.saved = false
		vReach("processed")
		return nil, &api.Error{Method: "GET", StatusCode: 404, Data: []byte("NOT_FOUND: beacon block")}
	}
	contract.VStub_ContractCaller_LastConsolidatedSlot = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
		if err := e.step(); err != nil {
			return 0, err
		}
		e.read = true
		return e.chain.slot, nil
	}
	contract.VStub_ContractCaller_RewardsRoot = func(c *contract.ContractCaller, o *bind.CallOpts) ([32]byte, error) {
		if err := e.step(); err != nil {
			return [32]byte{}, err
		}
		return e.chain.root, nil
	}
	contract.VStub_ContractCaller_Quorum = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
		return 3, e.step()
	}
	contract.VStub_ContractCaller_AddressToVotedReportHash = func(c *contract.ContractCaller, o *bind.CallOpts, a common.Address) ([32]byte, error) {
		vAssert(a == common.HexToAddress(vUpdater), "the oracle looks up its own vote")
		return [32]byte{1}, e.step()
	}
	contract.VStub_ContractCaller_ReportHashToReport = func(c *contract.ContractCaller, o *bind.CallOpts, h [32]byte) (struct {
		Slot  uint64
		Votes uint64
	}, error) {
		var r struct {
			Slot  uint64
			Votes uint64
		}
		r.Slot, r.Votes = e.voted, 1
		if e.chain.slot == e.voted {
			r.Slot = 0 // consolidated reports are deleted
		}
		return r, e.step()
	}
	contract.VStub_NewContract = func(a common.Address, b bind.ContractBackend) (*contract.Contract, error) {
		vAssert(a == common.HexToAddress(vPool), "the report goes to the pool")
		return &contract.Contract{}, nil
	}
	ethclient.VStub_Client_PendingNonceAt = func(c *ethclient.Client, ctx context.Context, a common.Address) (uint64, error) { return 4, e.step() }
	ethclient.VStub_Client_NetworkID = func(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return big.NewInt(560048), e.step() }
	crypto.VStub_PubkeyToAddress = func(k ecdsa.PublicKey) common.Address { return common.HexToAddress(vUpdater) }
	bind.VStub_NewKeyedTransactorWithChainID = func(k *ecdsa.PrivateKey, id *big.Int) (*bind.TransactOpts, error) { return &bind.TransactOpts{}, nil }
	bind.VStub_WaitMined = func(ctx context.Context, b bind.DeployBackend, tx *types.Transaction) (*types.Receipt, error) {
		r := &types.Receipt{BlockNumber: big.NewInt(9)}
		e.reverted = true
		if vPick("mined", 2) == 1 {
			e.mined, e.reverted = true, false
			r.Status = 1
			e.voted = e.reports[len(e.reports)-1].slot
			e.meanwhile()
		}
		return r, nil
	}
	contract.VStub_ContractTransactor_SubmitReport = func(c *contract.ContractTransactor, o *bind.TransactOpts, slot uint64, root [32]byte) (*types.Transaction, error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		vReach("submitted")
		st := e.or.LatestCommitedState()
		vAssert(!e.cfg.DryRun, "nothing is submitted in a dry run")
		vAssert(e.balanced, "nothing is submitted when the books do not balance")
		vAssert(slot == e.or.State().LatestProcessedSlot && slot == e.next-1, "the report is of the checkpoint just reached")
		vAssert(vForce((slot-e.deployed)%e.cfg.CheckPointSizeInSlots == 0), "only checkpoints are submitted")
		vAssert(st != nil && slot == st.Slot, "the report is of the frozen state")
		vAssert(common.Bytes2Hex(root[:]) == st.MerkleRoot[2:], "the report has the root of the frozen state")
		vAssert(e.read && slot == e.chain.slot+e.cfg.CheckPointSizeInSlots, "only the checkpoint that follows the contract's is submitted")
		vAssert(e.voted != slot, "no checkpoint is voted for twice")
		vAssert(o.Value == nil || o.Value.Sign() == 0, "no ether is sent along")
		e.reports, e.mined = append(e.reports, vReport{slot, root}), false
		switch vPick("accepted", vParam("accepts", 4)) {
		case 3:
			e.reverted = true
			return nil, errors.New("execution reverted: DappnodeSmoothingPool::submitReport: Only oracle members can submit reports")
		case 2:
			e.reverted = true
			return nil, errors.New("insufficient funds for gas * price + value")
		case 1:
			e.mined = true // somebody else's was
			return nil, errors.New("execution reverted: DappnodeSmoothingPool::submitReport: Slot number invalid")
		}
		pool := common.HexToAddress(vPool)
		tx, err := utils.DecodeTx(vMkTx(0, 4, &pool, big.NewInt(0), big.NewInt(1), nil, 0, oracle.HoodiChainId, nil))
		return tx, err
	}
	ethclient.VStub_Client_BalanceAt = func(c *ethclient.Client, ctx context.Context, a common.Address, n *big.Int) (*big.Int, error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		vAssert(a == common.HexToAddress(vPool) && n != nil && n.Uint64() == e.or.State().LatestProcessedBlock, "the pool's balance is that of the latest processed block")
		e.claims = 0
		e.reconciled = true
		if vPick("owed", 2) == 1 {
			e.insolvent = true
			return big.NewInt(1073), nil
		}
		if len(e.or.State().Validators) == 0 {
			return big.NewInt(0), nil
		}
		if e.balanced {
			return big.NewInt(1075), nil
		}
		return big.NewInt(1074), nil
	}
	contract.VStub_ContractCaller_ClaimedBalance = func(c *contract.ContractCaller, o *bind.CallOpts, a common.Address) (*big.Int, error) {
		if err := e.step(); err != nil {
			return nil, err
		}
		vAssert(o.BlockNumber != nil && o.BlockNumber.Uint64() == e.or.State().LatestProcessedBlock, "the claims are those of the latest processed block")
		e.claims++
		return big.NewInt(0), nil
	}
	oracle.VStub_Oracle_SaveToJson = func(or *oracle.Oracle, saveSlot bool) error {
		vReach("saved")
		e.saves++
		e.saved = true
		vAssert(!e.reverted, "the loop stops when its report is refused")
		st := or.LatestCommitedState()
		vAssert(e.balanced, "no checkpoint is saved when the books do not balance")
		vAssert(st != nil && saveSlot && st.Slot == e.next-1, "a checkpoint is saved when it is reached")
		if len(e.reports) > 0 && e.reports[len(e.reports)-1].slot == st.Slot {
			vAssert(e.chain.slot == st.Slot, "a submitted checkpoint is saved once it is consolidated")
			vAssert(common.Bytes2Hex(e.chain.root[:]) == st.MerkleRoot[2:], "a submitted checkpoint is saved once its root is consolidated")
		}
		if !e.cfg.DryRun && !(len(e.reports) > 0 && e.reports[len(e.reports)-1].slot == st.Slot) {
			vAssert(e.chain.slot+e.cfg.CheckPointSizeInSlots != st.Slot, "the checkpoint that follows the contract's is submitted")
		}
		return nil
	}
}

// roundDone: what has to be done by the end of a round of the loop.
func (e *vLoopEnv) roundDone() {
	vAssert(!e.insolvent || e.failed, "the loop stops when the pool cannot pay what it owes")
	if e.failed {
		return
	}
	vAssert(e.want == 0 || e.want == e.next, "a finalized slot is processed")
	if e.idle {
		vAssert(e.reconciled, "the books are checked against the chain once the oracle is up to date")
		vAssert(e.insolvent || e.claims == len(e.or.GetUniqueWithdrawalAddresses()), "the claims of every address count")
	}
	n, from := 0, e.first+1
	if e.pending && e.turns > 0 {
		from = e.first
	}
	for s := from; s < e.next; s++ {
		if (s-e.deployed)%e.cfg.CheckPointSizeInSlots == 0 {
			n++
		}
	}
	if len(e.or.State().Validators) == 0 {
		n = 0
	}
	vAssert(e.saves == n, "every checkpoint is frozen and saved")
	e.want, e.idle = 0, false
}

func vDec(x uint64) string { return new(big.Int).SetUint64(x).String() }

// vC34Faults: the same, with any one call failing.
func vC34Faults() { vC34Loop() }

// vC34Loop: rounds of the main loop, starting anywhere.
func vC34Loop() {
	size := uint64(vParam("size", 2))
	dry := vPick("dry", 2) == 1
	e := vLoop(size, dry)
	// what the contract has: the previous checkpoint, this one, or something else
	switch vPick("contract", 3) {
	case 0:
		e.chain.slot = e.first - (e.first-e.deployed)%size
	case 1:
		e.chain.slot = e.first - (e.first-e.deployed)%size + size
	case 2:
		e.chain.slot = vU64("onchain")
		vAssume(e.chain.slot < 1<<41)
	}
	if vPick("voted", 2) == 1 {
		e.voted = e.first - (e.first-e.deployed)%size + size
		vAssume(e.chain.slot != e.voted)
	} else if vParam("votes", 3) == 3 && vPick("votedLater", 2) == 1 {
		// before the oracle was set back to an older state
		e.voted = e.first - (e.first-e.deployed)%size + 2*size
		vAssume(e.chain.slot == e.voted-size)
	}
	if e.voted == 0 && e.pending && vParam("votes", 3) == 3 && vPick("votedFirst", 2) == 1 {
		// the state is older than the vote
		e.voted = e.first
		vAssume(e.chain.slot != e.voted)
	}
	if vParam("faults", 0) == 1 {
		e.failAt = vPick("failAt", vParam("calls", 30))
	}
	e.install()
	r := 2
	if vParam("dbg", 0) == 1 {
		mainLoop(e.or, e.oc, e.cfg)
	} else {
		r = vTry(func() { mainLoop(e.or, e.oc, e.cfg) })
	}
	vReach("loop")
	if !e.stopped {
		vAssert(r == 2, "the loop never crashes")
		bad := !e.balanced || e.insolvent || e.failed || len(e.reports) > 0 && !e.mined
		vAssert(bad, "the loop only stops for a reason")
	}
	if !e.balanced {
		st := e.or.LatestCommitedState()
		vAssert(st == nil || st.Slot == e.first && !e.pending, "no checkpoint is frozen when the books do not balance")
	}
	vAssert(e.or.State().NextSlotToProcess == e.next, "every fetched slot is processed")
}
