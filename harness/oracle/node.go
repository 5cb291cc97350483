package oracle

// A node as the oracle sees it: every call of the two clients is answered from here.

import (
	"context"
	"errors"
	"math/big"

	"github.com/attestantio/go-eth2-client/api"
	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
)

type vNode struct {
	slot     uint64
	number   uint64
	duties   func(epoch uint64) []*v1.ProposerDuty
	vals     map[uint64]*v1.Validator
	block    *spec.VersionedSignedBeaconBlock // nil: no block in the slot
	ev       *Events
	header   *types.Header
	receipts []*types.Receipt
	attempts int
	failAt   int // the call (in order) that fails, -1 for none
	failHow  int // no answer, or an error status
	failFor  int // how many times it fails
	badLog   int // the iterator (in order) that stops with an error after its first events, -1 for none
	badEvent bool
	calls    int
	iters    int
	bad      bool // a call did not ask for the data of the slot
	nHeaders int
}

// the text of an error says nothing about the chain, whatever it happens to mention
var errNode = errors.New("failed to call GET endpoint\nGet \"http://node:4040/eth/v2/beacon/blocks/7404123\": dial tcp: lookup node: host not found")

func vStatus(code int, text string) error {
	return &api.Error{Method: "GET", Endpoint: "/eth/v2/beacon/blocks/7404123", StatusCode: code, Data: []byte(text)}
}

// step: a call to the node; it fails if it is the one to fail.
func (n *vNode) step() error {
	if n.failAt == n.calls && n.failFor > 0 {
		n.failFor--
		if n.failHow == 1 {
			return vStatus(500, "{\"code\":500,\"message\":\"404 NOT_FOUND upstream\"}")
		}
		return errNode
	}
	n.calls++
	return nil
}

func (n *vNode) filter(o *bind.FilterOpts) error {
	if err := n.step(); err != nil {
		return err
	}
	n.bad = n.bad || o.End == nil
	if o.End != nil {
		n.bad = vForce(vOr(n.bad, o.Start != n.number, *o.End != n.number))
	}
	n.badEvent = n.iters == n.badLog
	n.iters++
	return nil
}

func (n *vNode) iterErr() error {
	if n.badEvent {
		return errors.New("a log cannot be decoded")
	}
	return nil
}

func (n *vNode) onchain(chain uint64) *Onchain {
	return &Onchain{
		ConsensusClient: &http.Service{}, ExecutionClient: &ethclient.Client{},
		Contract: &contract.Contract{}, NumRetries: n.attempts, PoolAddress: vPool, ChainId: chain,
	}
}

// install answers every call from n.
func (n *vNode) install() {
	retry.VStub_Do = func(f retry.RetryableFunc, opts ...retry.Option) error {
		var err error
		for i := 0; i < n.attempts; i++ {
			if err = f(); err == nil {
				return nil
			}
		}
		return err
	}
	http.VStub_Service_ProposerDuties = func(s *http.Service, ctx context.Context, o *api.ProposerDutiesOpts) (*api.Response[[]*v1.ProposerDuty], error) {
		if err := n.step(); err != nil {
			return nil, err
		}
		return &api.Response[[]*v1.ProposerDuty]{Data: n.duties(uint64(o.Epoch))}, nil
	}
	http.VStub_Service_Validators = func(s *http.Service, ctx context.Context, o *api.ValidatorsOpts) (*api.Response[map[phase0.ValidatorIndex]*v1.Validator], error) {
		if err := n.step(); err != nil {
			return nil, err
		}
		n.bad = vForce(vOr(n.bad, vNot(vEqStr(o.State, vSlotStr(n.slot)))))
		out := map[phase0.ValidatorIndex]*v1.Validator{}
		for _, i := range o.Indices {
			if v := n.vals[uint64(i)]; v != nil {
				out[i] = v
			}
		}
		return &api.Response[map[phase0.ValidatorIndex]*v1.Validator]{Data: out}, nil
	}
	http.VStub_Service_SignedBeaconBlock = func(s *http.Service, ctx context.Context, o *api.SignedBeaconBlockOpts) (*api.Response[*spec.VersionedSignedBeaconBlock], error) {
		if err := n.step(); err != nil {
			return nil, err
		}
		n.bad = vForce(vOr(n.bad, vNot(vEqStr(o.Block, vSlotStr(n.slot)))))
		if n.block == nil {
			return nil, vStatus(404, "{\"code\":404,\"message\":\"NOT_FOUND: beacon block at slot 7408169\",\"stacktraces\":[]}")
		}
		return &api.Response[*spec.VersionedSignedBeaconBlock]{Data: n.block}, nil
	}
	ethclient.VStub_Client_HeaderByNumber = func(c *ethclient.Client, ctx context.Context, num *big.Int) (*types.Header, error) {
		if err := n.step(); err != nil {
			return nil, err
		}
		n.nHeaders++
		n.bad = vForce(vOr(n.bad, num.Cmp(new(big.Int).SetUint64(n.number)) != 0))
		return n.header, nil
	}
	ethclient.VStub_Client_TransactionReceipt = func(c *ethclient.Client, ctx context.Context, h common.Hash) (*types.Receipt, error) {
		if err := n.step(); err != nil {
			return nil, err
		}
		for _, r := range n.receipts {
			if vForce(r.TxHash == h) {
				return r, nil
			}
		}
		return nil, errors.New("not found")
	}
	var posEtherReceived int
	contract.VStub_ContractFilterer_FilterEtherReceived = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractEtherReceivedIterator, error) {
		posEtherReceived = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractEtherReceivedIterator{}, nil
	}
	contract.VStub_ContractEtherReceivedIterator_Next = func(it *contract.ContractEtherReceivedIterator) bool {
		if n.badEvent || posEtherReceived == len(n.ev.EtherReceived) {
			return false
		}
		it.Event = n.ev.EtherReceived[posEtherReceived]
		posEtherReceived++
		return true
	}
	contract.VStub_ContractEtherReceivedIterator_Error = func(it *contract.ContractEtherReceivedIterator) error { return n.iterErr() }
	contract.VStub_ContractEtherReceivedIterator_Close = func(it *contract.ContractEtherReceivedIterator) error { return nil }
	var posSubscribeValidator int
	contract.VStub_ContractFilterer_FilterSubscribeValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractSubscribeValidatorIterator, error) {
		posSubscribeValidator = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractSubscribeValidatorIterator{}, nil
	}
	contract.VStub_ContractSubscribeValidatorIterator_Next = func(it *contract.ContractSubscribeValidatorIterator) bool {
		if n.badEvent || posSubscribeValidator == len(n.ev.SubscribeValidator) {
			return false
		}
		it.Event = n.ev.SubscribeValidator[posSubscribeValidator]
		posSubscribeValidator++
		return true
	}
	contract.VStub_ContractSubscribeValidatorIterator_Error = func(it *contract.ContractSubscribeValidatorIterator) error { return n.iterErr() }
	contract.VStub_ContractSubscribeValidatorIterator_Close = func(it *contract.ContractSubscribeValidatorIterator) error { return nil }
	var posUnsubscribeValidator int
	contract.VStub_ContractFilterer_FilterUnsubscribeValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUnsubscribeValidatorIterator, error) {
		posUnsubscribeValidator = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractUnsubscribeValidatorIterator{}, nil
	}
	contract.VStub_ContractUnsubscribeValidatorIterator_Next = func(it *contract.ContractUnsubscribeValidatorIterator) bool {
		if n.badEvent || posUnsubscribeValidator == len(n.ev.UnsubscribeValidator) {
			return false
		}
		it.Event = n.ev.UnsubscribeValidator[posUnsubscribeValidator]
		posUnsubscribeValidator++
		return true
	}
	contract.VStub_ContractUnsubscribeValidatorIterator_Error = func(it *contract.ContractUnsubscribeValidatorIterator) error { return n.iterErr() }
	contract.VStub_ContractUnsubscribeValidatorIterator_Close = func(it *contract.ContractUnsubscribeValidatorIterator) error { return nil }
	var posUpdatePoolFee int
	contract.VStub_ContractFilterer_FilterUpdatePoolFee = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUpdatePoolFeeIterator, error) {
		posUpdatePoolFee = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractUpdatePoolFeeIterator{}, nil
	}
	contract.VStub_ContractUpdatePoolFeeIterator_Next = func(it *contract.ContractUpdatePoolFeeIterator) bool {
		if n.badEvent || posUpdatePoolFee == len(n.ev.UpdatePoolFee) {
			return false
		}
		it.Event = n.ev.UpdatePoolFee[posUpdatePoolFee]
		posUpdatePoolFee++
		return true
	}
	contract.VStub_ContractUpdatePoolFeeIterator_Error = func(it *contract.ContractUpdatePoolFeeIterator) error { return n.iterErr() }
	contract.VStub_ContractUpdatePoolFeeIterator_Close = func(it *contract.ContractUpdatePoolFeeIterator) error { return nil }
	var posUpdatePoolFeeRecipient int
	contract.VStub_ContractFilterer_FilterUpdatePoolFeeRecipient = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUpdatePoolFeeRecipientIterator, error) {
		posUpdatePoolFeeRecipient = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractUpdatePoolFeeRecipientIterator{}, nil
	}
	contract.VStub_ContractUpdatePoolFeeRecipientIterator_Next = func(it *contract.ContractUpdatePoolFeeRecipientIterator) bool {
		if n.badEvent || posUpdatePoolFeeRecipient == len(n.ev.PoolFeeRecipient) {
			return false
		}
		it.Event = n.ev.PoolFeeRecipient[posUpdatePoolFeeRecipient]
		posUpdatePoolFeeRecipient++
		return true
	}
	contract.VStub_ContractUpdatePoolFeeRecipientIterator_Error = func(it *contract.ContractUpdatePoolFeeRecipientIterator) error { return n.iterErr() }
	contract.VStub_ContractUpdatePoolFeeRecipientIterator_Close = func(it *contract.ContractUpdatePoolFeeRecipientIterator) error { return nil }
	var posUpdateCheckpointSlotSize int
	contract.VStub_ContractFilterer_FilterUpdateCheckpointSlotSize = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUpdateCheckpointSlotSizeIterator, error) {
		posUpdateCheckpointSlotSize = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractUpdateCheckpointSlotSizeIterator{}, nil
	}
	contract.VStub_ContractUpdateCheckpointSlotSizeIterator_Next = func(it *contract.ContractUpdateCheckpointSlotSizeIterator) bool {
		if n.badEvent || posUpdateCheckpointSlotSize == len(n.ev.CheckpointSlotSize) {
			return false
		}
		it.Event = n.ev.CheckpointSlotSize[posUpdateCheckpointSlotSize]
		posUpdateCheckpointSlotSize++
		return true
	}
	contract.VStub_ContractUpdateCheckpointSlotSizeIterator_Error = func(it *contract.ContractUpdateCheckpointSlotSizeIterator) error { return n.iterErr() }
	contract.VStub_ContractUpdateCheckpointSlotSizeIterator_Close = func(it *contract.ContractUpdateCheckpointSlotSizeIterator) error { return nil }
	var posUpdateSubscriptionCollateral int
	contract.VStub_ContractFilterer_FilterUpdateSubscriptionCollateral = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUpdateSubscriptionCollateralIterator, error) {
		posUpdateSubscriptionCollateral = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractUpdateSubscriptionCollateralIterator{}, nil
	}
	contract.VStub_ContractUpdateSubscriptionCollateralIterator_Next = func(it *contract.ContractUpdateSubscriptionCollateralIterator) bool {
		if n.badEvent || posUpdateSubscriptionCollateral == len(n.ev.UpdateSubscriptionCollateral) {
			return false
		}
		it.Event = n.ev.UpdateSubscriptionCollateral[posUpdateSubscriptionCollateral]
		posUpdateSubscriptionCollateral++
		return true
	}
	contract.VStub_ContractUpdateSubscriptionCollateralIterator_Error = func(it *contract.ContractUpdateSubscriptionCollateralIterator) error { return n.iterErr() }
	contract.VStub_ContractUpdateSubscriptionCollateralIterator_Close = func(it *contract.ContractUpdateSubscriptionCollateralIterator) error { return nil }
	var posBanValidator int
	contract.VStub_ContractFilterer_FilterBanValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractBanValidatorIterator, error) {
		posBanValidator = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractBanValidatorIterator{}, nil
	}
	contract.VStub_ContractBanValidatorIterator_Next = func(it *contract.ContractBanValidatorIterator) bool {
		if n.badEvent || posBanValidator == len(n.ev.BanValidator) {
			return false
		}
		it.Event = n.ev.BanValidator[posBanValidator]
		posBanValidator++
		return true
	}
	contract.VStub_ContractBanValidatorIterator_Error = func(it *contract.ContractBanValidatorIterator) error { return n.iterErr() }
	contract.VStub_ContractBanValidatorIterator_Close = func(it *contract.ContractBanValidatorIterator) error { return nil }
	var posUnbanValidator int
	contract.VStub_ContractFilterer_FilterUnbanValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUnbanValidatorIterator, error) {
		posUnbanValidator = 0
		if err := n.filter(o); err != nil {
			return nil, err
		}
		return &contract.ContractUnbanValidatorIterator{}, nil
	}
	contract.VStub_ContractUnbanValidatorIterator_Next = func(it *contract.ContractUnbanValidatorIterator) bool {
		if n.badEvent || posUnbanValidator == len(n.ev.UnbanValidator) {
			return false
		}
		it.Event = n.ev.UnbanValidator[posUnbanValidator]
		posUnbanValidator++
		return true
	}
	contract.VStub_ContractUnbanValidatorIterator_Error = func(it *contract.ContractUnbanValidatorIterator) error { return n.iterErr() }
	contract.VStub_ContractUnbanValidatorIterator_Close = func(it *contract.ContractUnbanValidatorIterator) error { return nil }
}
