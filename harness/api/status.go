package api

import (
	"context"
	"math/big"

	eapi "github.com/attestantio/go-eth2-client/api"
	v1 "github.com/attestantio/go-eth2-client/api/v1"
	chttp "github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/ethclient"
)

type vStatus struct {
	Cons     bool   `json:"is_consensus_in_sync"`
	Exec     bool   `json:"is_execution_in_sync"`
	Oracle   bool   `json:"is_oracle_in_sync"`
	Slot     uint64 `json:"latest_processed_slot"`
	Block    uint64 `json:"latest_processed_block"`
	Epoch    uint64 `json:"latest_finalized_epoch"`
	Fin      uint64 `json:"latest_finalized_slot"`
	Distance uint64 `json:"oracle_sync_distance_slots"`
	Next     uint64 `json:"next_checkpoint_slot"`
	NextIn   uint64 `json:"next_checkpoint_remaining_unix"`
	Prev     uint64 `json:"previous_checkpoint_slot"`
	PrevAge  uint64 `json:"previous_checkpoint_age_unix"`
	ConsId   string `json:"consensus_chainid"`
	ExecId   string `json:"execution_chainid"`
	Deposit  string `json:"depositcontract"`
}

// vC33Status: the status endpoint, whatever the nodes answer.
func vC33Status() {
	e := vNewEnv(0)
	size := vU64("size")
	onSlot := vU64("onchainSlot")
	vAssume(vAnd(size >= 1, size < 1<<40, onSlot <= e.fin, e.st.LatestProcessedSlot <= e.fin))
	e.cfg.CheckPointSizeInSlots = size
	fail := vPick("fail", 9)
	var dist uint64
	var synced bool
	ethclient.VStub_Client_ChainID = func(c *ethclient.Client, ctx context.Context) (*big.Int, error) {
		if fail == 1 {
			return nil, errNode
		}
		return big.NewInt(1), nil
	}
	ethclient.VStub_Client_SyncProgress = func(c *ethclient.Client, ctx context.Context) (*ethereum.SyncProgress, error) {
		if fail == 2 {
			return nil, errNode
		}
		synced = vPick("synced", 2) == 0
		if synced {
			return nil, nil
		}
		return &ethereum.SyncProgress{}, nil
	}
	chttp.VStub_Service_DepositContract = func(s *chttp.Service, ctx context.Context, o *eapi.DepositContractOpts) (*eapi.Response[*v1.DepositContract], error) {
		if fail == 3 {
			return nil, errNode
		}
		return &eapi.Response[*v1.DepositContract]{Data: &v1.DepositContract{ChainID: 1}}, nil
	}
	chttp.VStub_Service_NodeSyncing = func(s *chttp.Service, ctx context.Context, o *eapi.NodeSyncingOpts) (*eapi.Response[*v1.SyncState], error) {
		switch fail {
		case 4:
			return nil, errNode
		case 5:
			return nil, nil
		case 6:
			return &eapi.Response[*v1.SyncState]{}, nil
		}
		dist = vU64("distance")
		return &eapi.Response[*v1.SyncState]{Data: &v1.SyncState{SyncDistance: phase0.Slot(dist)}}, nil
	}
	e.down = fail == 7
	contract.VStub_ContractCaller_LastConsolidatedSlot = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
		if fail == 8 {
			return 0, errNode
		}
		return onSlot, nil
	}
	contract.VStub_ContractCaller_RewardsRoot = func(c *contract.ContractCaller, o *bind.CallOpts) ([32]byte, error) { return [32]byte{}, nil }
	e.earlier(func() {
		f, o := fail, onSlot
		fail, onSlot = 0, 1
		e.cfg.CheckPointSizeInSlots = 5
		vGet(e.s.handleStatus)
		fail, onSlot = f, o
		e.cfg.CheckPointSizeInSlots = size
	})
	r := vGet(e.s.handleStatus)
	if fail != 0 {
		vReach("failed")
		vAssert(r.code == 500, "a node that does not answer is reported")
		return
	}
	vReach("status")
	vAssert(r.code == 200, "served")
	var s vStatus
	r.into(&s)
	vAssert(vAnd(s.Exec == synced, vIff(s.Cons, dist < 2)), "sync of the nodes")
	vAssert(vIff(s.Oracle, e.fin == e.st.LatestProcessedSlot), "the oracle is in sync when it processed the finalized slot")
	vAssert(vAnd(s.Slot == e.st.LatestProcessedSlot, s.Block == e.st.LatestProcessedBlock, s.Fin == e.fin, s.Epoch == e.fin/32), "position")
	vAssert(s.Distance == e.fin-e.st.LatestProcessedSlot, "slots that are finalized and not processed")
	vAssert(vAnd(s.Next == onSlot+size, s.Prev == onSlot), "checkpoints")
	left := vIteU64(e.fin < onSlot+size, onSlot+size-e.fin, 0)
	vAssert(vAnd(s.NextIn == left*12, s.PrevAge == (e.fin-onSlot)*12), "seconds to and from the checkpoints")
	vAssert(s.ConsId == "1" && s.ExecId == "1", "chains")
}
