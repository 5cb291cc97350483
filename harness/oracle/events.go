package oracle

import (
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
)

type vSub struct {
	ev     *contract.ContractSubscribeValidator
	val    *v1.Validator
	idx    uint64
	coll   *big.Int
	sender string
	exists bool
	can    bool
	addr   string // "" for BLS credentials
}

// subEvent: an arbitrary subscription event: any of the tracked validators or an untracked one, any collateral,
// sender either the withdrawal address or someone else, any beacon status, any kind of credentials.
func (e *vEnv) subEvent(n int) *vSub {
	s := &vSub{idx: vBase + uint64(vPick("subIdx", n+1)), coll: vBig("collateral", 96)}
	s.addr = vAddrOf(int(s.idx - vBase))
	s.sender = s.addr
	kind := vPick("subVal", 4) // 0 missing, 1 BLS, 2 eth1, 3 electra
	if vPick("subSender", 2) == 1 {
		s.sender = vOther
	}
	s.exists = kind != 0
	if kind != 0 {
		st := v1.ValidatorState(vInt("subState", 0, 9))
		s.can = vCanSubscribe(st)
		s.val = vValidator(s.idx, vCredOf(s.addr, byte(kind-1)), st, 32000000000)
		if kind == 1 {
			s.addr = ""
		}
	}
	s.ev = &contract.ContractSubscribeValidator{Sender: common.HexToAddress(s.sender), SubscriptionCollateral: new(big.Int).Set(s.coll), ValidatorID: s.idx, Raw: vLog(e.block)}
	return s
}

type vUnsub struct {
	ev     *contract.ContractUnsubscribeValidator
	val    *v1.Validator
	idx    uint64
	sender string
	exists bool
	addr   string
}

func (e *vEnv) unsubEvent(n int) *vUnsub {
	s := &vUnsub{idx: vBase + uint64(vPick("unsubIdx", n+1))}
	s.addr = vAddrOf(int(s.idx - vBase))
	s.sender = s.addr
	kind := vPick("unsubVal", 4)
	if vPick("unsubSender", 2) == 1 {
		s.sender = vOther
	}
	s.exists = kind != 0
	if kind != 0 {
		s.val = vValidator(s.idx, vCredOf(s.addr, byte(kind-1)), v1.ValidatorState(vInt("unsubState", 0, 9)), 32000000000)
		if kind == 1 {
			s.addr = ""
		}
	}
	s.ev = &contract.ContractUnsubscribeValidator{Sender: common.HexToAddress(s.sender), ValidatorID: s.idx, Raw: vLog(e.block)}
	return s
}

// simpleSub / simpleUnsub: events that pass every validity check that does not depend on the oracle's state.
func (e *vEnv) simpleSub(idx uint64) *vSub {
	s := &vSub{idx: idx, coll: vBig("collateral", 80), addr: vAddrOf(int(idx - vBase)), exists: true, can: true}
	s.sender = s.addr
	s.val = vValidator(idx, vCredOf(s.addr, 1), v1.ValidatorStateActiveOngoing, 32000000000)
	s.ev = &contract.ContractSubscribeValidator{Sender: common.HexToAddress(s.sender), SubscriptionCollateral: new(big.Int).Set(s.coll), ValidatorID: idx, Raw: vLog(e.block)}
	return s
}

func (e *vEnv) simpleUnsub(idx uint64) *vUnsub {
	s := &vUnsub{idx: idx, addr: vAddrOf(int(idx - vBase)), exists: true}
	s.sender = s.addr
	s.val = vValidator(idx, vCredOf(s.addr, 1), v1.ValidatorStateActiveOngoing, 32000000000)
	s.ev = &contract.ContractUnsubscribeValidator{Sender: common.HexToAddress(s.sender), ValidatorID: idx, Raw: vLog(e.block)}
	return s
}
