package api

// The main loop, the signal handler and requests at the same time.

import (
	"bytes"
	"context"
	"io"
	"math/big"
	"net/http"

	eapi "github.com/attestantio/go-eth2-client/api"
	v1 "github.com/attestantio/go-eth2-client/api/v1"
	chttp "github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/gorilla/mux"
)

type vThEnv struct {
	s    *ApiService
	or   *oracle.Oracle
	oc   *oracle.Onchain
	down bool
}

// vThreadsEnv: an oracle that is up to date, with a tracked validator of any status, a block of every kind, a
// donation and a committed state.
func vThreadsEnv(main string, reqs ...string) *vThEnv {
	net, chain := oracle.Mainnet, oracle.MainnetChainId
	slot := uint64(5000)
	busy := main == "slot"
	switch vPickIf(busy, "slot", 3) {
	case 1: // a cleanup
		slot = 1200 * 10000
	case 2: // a change of the fee
		net, chain = oracle.Hoodi, oracle.HoodiChainId
		if s := oracle.VScheduled(net); s != 0 {
			slot = s
		}
	}
	cfg := &oracle.Config{Network: net, PoolAddress: vPool, DeployedSlot: 10, DeployedBlock: 5, CheckPointSizeInSlots: 7200,
		PoolFeesPercentOver10000: 700, PoolFeesAddress: vPoolFee, CollateralInWei: big.NewInt(5), NumRetries: 1}
	e := &vThEnv{or: oracle.NewOracle(cfg)}
	st := e.or.State()
	st.NextSlotToProcess, st.LatestProcessedSlot, st.LatestProcessedBlock = slot, slot-1, 6
	st.PoolAccumulatedFees = big.NewInt(70)
	st.Validators[100] = &oracle.ValidatorInfo{ValidatorStatus: oracle.ValidatorStatus(vPickIf(busy, "status", 5) + 1), AccumulatedRewardsWei: big.NewInt(1000), PendingRewardsWei: big.NewInt(5),
		CollateralWei: big.NewInt(5), WithdrawalAddress: vAddrs[0], ValidatorIndex: 100, ValidatorKey: "0xab"}
	b := oracle.SummarizedBlock{Slot: slot - 5, Block: 3, ValidatorIndex: 100, ValidatorKey: "0xab", BlockType: oracle.OkPoolProposal, Reward: big.NewInt(30), RewardType: oracle.VanilaBlock, WithdrawalAddress: vAddrs[0]}
	st.ProposedBlocks = append(st.ProposedBlocks, b)
	st.MissedBlocks = append(st.MissedBlocks, b)
	st.WrongFeeBlocks = append(st.WrongFeeBlocks, b)
	st.Donations = append(st.Donations, &contract.ContractEtherReceived{DonationAmount: big.NewInt(1070), Raw: types.Log{Topics: []common.Hash{}, Data: []byte{}}})
	st.EtherReceivedEvents = append(st.EtherReceivedEvents, st.Donations...)
	vAssert(e.or.FreezeCheckpoint(), "committed")
	beacon := map[phase0.ValidatorIndex]*v1.Validator{100: vBeaconVal(100, vCred(vAddrs[0], 1), v1.ValidatorStateActiveOngoing, 32, 32), 0: vBeaconVal(0, vCred(vAddrs[0], 1), v1.ValidatorStateActiveOngoing, 32, 32)}
	e.oc = oracle.VOnchain(1, nil, common.Address{}, vPool, chain)
	oracle.VSetValidators(e.oc, beacon)
	oracle.VNodes(e.or, []v1.ValidatorState{v1.ValidatorStateActiveOngoing, v1.ValidatorStateWithdrawalDone}[vPickIf(busy && slot > 5000, "left", 2)])
	e.s = NewApiService(cfg, &config.CliConfig{ApiPort: 7300, RelayersEndpoints: []string{"http://one"}}, e.or, e.oc)
	head := slot + 2
	asks := main == "refresh"
	for _, r := range reqs {
		asks = asks || r == "status" || r == "proof" || r == "withdrawal"
	}
	bad := vPickIf(asks, "down", 2) == 1
	root := st.CommitedStates[slot-1].MerkleRoot
	retry.VStub_Do = func(f retry.RetryableFunc, opts ...retry.Option) error { return f() }
	chttp.VStub_Service_BeaconBlockHeader = func(s *chttp.Service, ctx context.Context, o *eapi.BeaconBlockHeaderOpts) (*eapi.Response[*v1.BeaconBlockHeader], error) {
		return &eapi.Response[*v1.BeaconBlockHeader]{Data: &v1.BeaconBlockHeader{Header: &phase0.SignedBeaconBlockHeader{Message: &phase0.BeaconBlockHeader{Slot: phase0.Slot(head)}}}}, nil
	}
	chttp.VStub_Service_Validators = func(s *chttp.Service, ctx context.Context, o *eapi.ValidatorsOpts) (*eapi.Response[map[phase0.ValidatorIndex]*v1.Validator], error) {
		if bad {
			return nil, errNode
		}
		return &eapi.Response[map[phase0.ValidatorIndex]*v1.Validator]{Data: map[phase0.ValidatorIndex]*v1.Validator{0: vBeaconVal(0, vCred(vAddrs[0], 1), v1.ValidatorStateActiveOngoing, 32, 32)}}, nil
	}
	chttp.VStub_Service_NodeSyncing = func(s *chttp.Service, ctx context.Context, o *eapi.NodeSyncingOpts) (*eapi.Response[*v1.SyncState], error) {
		return &eapi.Response[*v1.SyncState]{Data: &v1.SyncState{}}, nil
	}
	chttp.VStub_Service_DepositContract = func(s *chttp.Service, ctx context.Context, o *eapi.DepositContractOpts) (*eapi.Response[*v1.DepositContract], error) {
		return &eapi.Response[*v1.DepositContract]{Data: &v1.DepositContract{ChainID: 1, Address: make([]byte, 20)}}, nil
	}
	ethclient.VStub_Client_ChainID = func(c *ethclient.Client, ctx context.Context) (*big.Int, error) {
		if bad {
			return nil, errNode
		}
		return big.NewInt(1), nil
	}
	ethclient.VStub_Client_SyncProgress = func(c *ethclient.Client, ctx context.Context) (*ethereum.SyncProgress, error) { return nil, nil }
	contract.VStub_ContractCaller_LastConsolidatedSlot = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) { return slot - 1, nil }
	contract.VStub_ContractCaller_RewardsRoot = func(c *contract.ContractCaller, o *bind.CallOpts) ([32]byte, error) {
		var r [32]byte
		copy(r[:], common.FromHex(root))
		return r, nil
	}
	contract.VStub_ContractCaller_ClaimedBalance = func(c *contract.ContractCaller, o *bind.CallOpts, a common.Address) (*big.Int, error) {
		if bad {
			return nil, errNode
		}
		return big.NewInt(1), nil
	}
	vHTTP = func(url string) (*http.Response, error) {
		return &http.Response{StatusCode: 400, Body: io.NopCloser(bytes.NewReader([]byte("{}")))}, nil
	}
	contract.VStub_ContractFilterer_FilterSubscribeValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractSubscribeValidatorIterator, error) {
		if bad {
			return nil, errNode
		}
		return &contract.ContractSubscribeValidatorIterator{}, nil
	}
	contract.VStub_ContractSubscribeValidatorIterator_Next = func(it *contract.ContractSubscribeValidatorIterator) bool {
		if it.Event != nil {
			return false
		}
		it.Event = &contract.ContractSubscribeValidator{Sender: common.HexToAddress(vAddrs[0]), SubscriptionCollateral: big.NewInt(5), ValidatorID: 100, Raw: types.Log{BlockNumber: 9}}
		return true
	}
	contract.VStub_ContractSubscribeValidatorIterator_Error = func(it *contract.ContractSubscribeValidatorIterator) error { return nil }
	contract.VStub_ContractSubscribeValidatorIterator_Close = func(it *contract.ContractSubscribeValidatorIterator) error { return nil }
	contract.VStub_ContractFilterer_FilterUnsubscribeValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUnsubscribeValidatorIterator, error) {
		return &contract.ContractUnsubscribeValidatorIterator{}, nil
	}
	contract.VStub_ContractUnsubscribeValidatorIterator_Next = func(it *contract.ContractUnsubscribeValidatorIterator) bool {
		if it.Event != nil {
			return false
		}
		it.Event = &contract.ContractUnsubscribeValidator{Sender: common.HexToAddress(vAddrs[0]), ValidatorID: 100, Raw: types.Log{BlockNumber: 9}}
		return true
	}
	contract.VStub_ContractUnsubscribeValidatorIterator_Error = func(it *contract.ContractUnsubscribeValidatorIterator) error { return nil }
	contract.VStub_ContractUnsubscribeValidatorIterator_Close = func(it *contract.ContractUnsubscribeValidatorIterator) error { return nil }
	return e
}

func vPickIf(c bool, name string, n int) int {
	if !c {
		return 0
	}
	return vPick(name, n)
}

var vRequests = []string{"statistics", "status", "config", "validators", "validator", "indices", "withdrawal", "fees", "allblocks", "proposed", "missed", "wrongfee", "donations", "proof", "relayers", "state", "signal"}

// request: one of the requests, or the signal handler's save.
func (e *vThEnv) request(k int) func() {
	h := func(f func(http.ResponseWriter, *http.Request), kv ...string) func() {
		vars := map[string]string{}
		for i := 0; i < len(kv); i += 2 {
			vars[kv[i]] = kv[i+1]
		}
		req := mux.SetURLVars(&http.Request{}, vars)
		return func() { f(&vResp{}, req) }
	}
	switch vRequests[k] {
	case "statistics":
		return h(e.s.handleMemoryStatistics)
	case "status":
		return h(e.s.handleStatus)
	case "config":
		return h(e.s.handleConfig)
	case "validators":
		return h(e.s.handleMemoryValidators)
	case "validator":
		return h(e.s.handleMemoryValidatorInfo, "valindex", "100")
	case "indices":
		return h(e.s.handleMemoryValidatorsByIndex, "valindices", "100,7")
	case "withdrawal":
		return h(e.s.handleMemoryValidatorsByWithdrawal, "withdrawalAddress", vAddrs[0])
	case "fees":
		return h(e.s.handleMemoryFeesInfo)
	case "allblocks":
		return h(e.s.handleMemoryAllBlocks)
	case "proposed":
		return h(e.s.handleMemoryProposedBlocks)
	case "missed":
		return h(e.s.handleMemoryMissedBlocks)
	case "wrongfee":
		return h(e.s.handleMemoryWrongFeeBlocks)
	case "donations":
		return h(e.s.handleMemoryDonations)
	case "proof":
		return h(e.s.handleOnchainMerkleProof, "withdrawalAddress", vAddrs[0])
	case "relayers":
		return h(e.s.handleValidatorRelayers, "valpubkey", vPubkey)
	case "state":
		return h(e.s.handleState)
	}
	return func() { e.or.SaveToJson(false) }
}

var vMainOps = []string{"slot", "freeze", "save", "refresh", "look", "reconcile"}

// mainOp: what the main loop does.
func (e *vThEnv) mainOp(k int) func() {
	switch vMainOps[k] {
	case "slot":
		fb := oracle.VSlotBlock(e.or, vPick("block", 4), vPick("events", vParam("events", 7)), e.oc.ChainId)
		return func() { e.or.AdvanceStateToNextSlot(fb) }
	case "freeze":
		return func() { e.or.FreezeCheckpoint() }
	case "save":
		return func() { e.or.SaveToJson(true) }
	case "refresh":
		return func() { vTry(func() { e.oc.RefreshBeaconValidators() }) }
	case "look":
		return func() {
			e.or.IsCheckpoint()
			e.or.LatestCommitedSlot()
			e.or.LatestCommitedState()
			e.or.GetUniqueWithdrawalAddresses()
			e.or.IsOracleInSyncWithChain(oracle.DefaultRoot, 5)
		}
	}
	return func() {
		e.or.RunOffchainReconciliation()
		e.or.RunOnchainReconciliation(big.NewInt(1075), map[string]*big.Int{vAddrs[0]: big.NewInt(0)})
	}
}

// vC17Threads: a step of the main loop and a request (or the save at a signal) at the same time.
func vC17Threads() {
	k := vPick("main", len(vMainOps))
	r := vPick("request", len(vRequests))
	e := vThreadsEnv(vMainOps[k], vRequests[r])
	a, b := e.mainOp(k), e.request(r)
	if vPick("order", 2) == 0 {
		vPar(e.s, vMainOps[k], a, vRequests[r], b)
	} else {
		vPar(e.s, vRequests[r], b, vMainOps[k], a)
	}
	vReach(vMainOps[k])
	vReach(vRequests[r])
}

// vC17Requests: two requests at the same time.
func vC17Requests() {
	k, r := vPick("request", len(vRequests)), vPick("request", len(vRequests))
	e := vThreadsEnv("", vRequests[k], vRequests[r])
	vPar(e.s, vRequests[k], e.request(k), vRequests[r], e.request(r))
	vReach(vRequests[r])
}
