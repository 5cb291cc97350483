package oracle

// What the oracle does while requests are served, for the harnesses of other packages.

import (
	"math/big"

	"github.com/avast/retry-go/v4"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

const vThPool, vThAddr = "0xadfb8d27671f14f297ee94135e266aaff8752e35", "0x00000000000000000000000000000000000000aa"

func vThVal(idx uint64, st v1.ValidatorState) *v1.Validator {
	c := make([]byte, 32)
	c[0] = 1
	copy(c[12:], common.HexToAddress(vThAddr).Bytes())
	return &v1.Validator{Index: phase0.ValidatorIndex(idx), Status: st, Validator: &phase0.Validator{WithdrawalCredentials: c, EffectiveBalance: 32000000000}}
}

// VNodes: what the beacon node says of the tracked validators.
func VNodes(or *Oracle, st v1.ValidatorState) {
	or.SetGetSetOfValidatorsFunc(func(ix []phase0.ValidatorIndex, slot string, opts ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
		out := map[phase0.ValidatorIndex]*v1.Validator{}
		for _, i := range ix {
			out[i] = vThVal(uint64(i), st)
		}
		return out, nil
	})
	or.GetPendingConsolidationsFunc(func(stateID string, opts ...retry.Option) (*PendingConsolidationsResponse, error) {
		return &PendingConsolidationsResponse{}, nil
	})
}

// VSlotBlock: the next block, of the given kind: 0 missed, 1 for the pool, 2 wrong fee recipient, 3 for the pool by a
// proposer with BLS keys; with the events of the given kind: 0 none, 1 subscription, 2 unsubscription, 3 donation,
// 4 ban, 5 unban, 6 the scheduled change of the fee.
func VSlotBlock(or *Oracle, kind, events int, chain uint64) *FullBlock {
	slot := or.state.NextSlotToProcess
	val := vThVal(100, v1.ValidatorStateActiveOngoing)
	if kind == 3 {
		val.Validator.WithdrawalCredentials[0] = 0
	}
	fb := NewFullBlock(&v1.ProposerDuty{Slot: phase0.Slot(slot), ValidatorIndex: 100}, val, chain)
	if kind == 0 {
		return fb
	}
	fee := vThPool
	if kind == 2 {
		fee = "0x0000000000000000000000000000000000c0ffee"
	}
	p := &capella.ExecutionPayload{BlockNumber: 7, FeeRecipient: bellatrix.ExecutionAddress(common.HexToAddress(fee))}
	fb.SetConsensusBlock(&spec.VersionedSignedBeaconBlock{Version: spec.DataVersionCapella, Capella: &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{
		Slot: phase0.Slot(slot), ProposerIndex: 100, Body: &capella.BeaconBlockBody{ExecutionPayload: p}}}})
	fb.SetHeaderAndReceipts(&types.Header{Number: big.NewInt(7), BaseFee: big.NewInt(0)}, []*types.Receipt{})
	raw := types.Log{Address: common.HexToAddress(vThPool), BlockNumber: 7, Topics: []common.Hash{common.HexToHash("0x01")}, Data: []byte{}}
	ev := &Events{}
	owner := common.HexToAddress(vThAddr)
	switch events {
	case 1:
		ev.SubscribeValidator = append(ev.SubscribeValidator, &contract.ContractSubscribeValidator{Sender: owner, SubscriptionCollateral: big.NewInt(5), ValidatorID: 101, Raw: raw})
		fb.ValidatorsSubs = []*v1.Validator{vThVal(101, v1.ValidatorStateActiveOngoing)}
	case 2:
		ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, &contract.ContractUnsubscribeValidator{Sender: owner, ValidatorID: 100, Raw: raw})
		fb.ValidatorsUnsubs = []*v1.Validator{vThVal(100, v1.ValidatorStateActiveOngoing)}
	case 3:
		ev.EtherReceived = append(ev.EtherReceived, &contract.ContractEtherReceived{Sender: owner, DonationAmount: big.NewInt(9), Raw: raw})
	case 4:
		ev.BanValidator = append(ev.BanValidator, &contract.ContractBanValidator{ValidatorID: 100, Raw: raw})
	case 5:
		ev.UnbanValidator = append(ev.UnbanValidator, &contract.ContractUnbanValidator{ValidatorID: 100, Raw: raw})
	case 6:
		for s, f := range getFeeSchedule(or.cfg.Network) {
			if s == slot {
				ev.UpdatePoolFee = append(ev.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: big.NewInt(int64(f)), Raw: raw})
			}
		}
	}
	fb.SetEvents(ev)
	return fb
}

// VScheduled: the slot of a fee change of the network, 0 if there is none.
func VScheduled(network string) uint64 {
	for s := range getFeeSchedule(network) {
		return s
	}
	return 0
}
