package api

import (
	"errors"
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

type vEvents struct {
	subs   []*contract.ContractSubscribeValidator
	unsubs []*contract.ContractUnsubscribeValidator
	fail   int // 1: the subscriptions cannot be asked for, 2: a log is broken, 3, 4: the same for unsubscriptions
}

func (e *vEnv) events(ev *vEvents) {
	ask := func(o *bind.FilterOpts, fail int) error {
		vAssert(o.Start == e.st.LatestProcessedBlock+1, "events are asked for from the first block that is not processed")
		vAssert(o.End == nil, "events are asked for up to the head")
		if ev.fail == fail {
			return errNode
		}
		return nil
	}
	var ps, pu int
	contract.VStub_ContractFilterer_FilterSubscribeValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractSubscribeValidatorIterator, error) {
		ps = 0
		if err := ask(o, 1); err != nil {
			return nil, err
		}
		return &contract.ContractSubscribeValidatorIterator{}, nil
	}
	contract.VStub_ContractSubscribeValidatorIterator_Next = func(it *contract.ContractSubscribeValidatorIterator) bool {
		if ev.fail == 2 || ps == len(ev.subs) {
			return false
		}
		it.Event = ev.subs[ps]
		ps++
		return true
	}
	contract.VStub_ContractSubscribeValidatorIterator_Error = func(it *contract.ContractSubscribeValidatorIterator) error {
		if ev.fail == 2 {
			return errors.New("a log cannot be decoded")
		}
		return nil
	}
	contract.VStub_ContractSubscribeValidatorIterator_Close = func(it *contract.ContractSubscribeValidatorIterator) error { return nil }
	contract.VStub_ContractFilterer_FilterUnsubscribeValidator = func(c *contract.ContractFilterer, o *bind.FilterOpts) (*contract.ContractUnsubscribeValidatorIterator, error) {
		pu = 0
		if err := ask(o, 3); err != nil {
			return nil, err
		}
		return &contract.ContractUnsubscribeValidatorIterator{}, nil
	}
	contract.VStub_ContractUnsubscribeValidatorIterator_Next = func(it *contract.ContractUnsubscribeValidatorIterator) bool {
		if ev.fail == 4 || pu == len(ev.unsubs) {
			return false
		}
		it.Event = ev.unsubs[pu]
		pu++
		return true
	}
	contract.VStub_ContractUnsubscribeValidatorIterator_Error = func(it *contract.ContractUnsubscribeValidatorIterator) error {
		if ev.fail == 4 {
			return errors.New("a log cannot be decoded")
		}
		return nil
	}
	contract.VStub_ContractUnsubscribeValidatorIterator_Close = func(it *contract.ContractUnsubscribeValidatorIterator) error { return nil }
}

const vNewcomer = uint64(300)

// vShadow: what the user should see of a validator.
type vShadow struct {
	status    oracle.ValidatorStatus
	acc, pend *big.Int
	subtype   oracle.SubscriptionType
	addr      string
	tracked   bool
}

// vC25Overlay: the validators of an address, with the events that are not finalized yet.
func vC25Overlay() {
	e := vNewEnv(vParam("n", 1))
	if vParam("forget", 1) == 1 {
		e.forget()
	}
	e.assumeReady()
	want := map[uint64]*vShadow{}
	addr := vAddrs[0]
	typed := []string{addr, "0x00000000000000000000000000000000000000AA"}[vPick("typed", vParam("typed", 1))]
	for i, v := range e.st.Validators {
		if v.WithdrawalAddress == addr {
			want[i] = &vShadow{v.ValidatorStatus, new(big.Int).Set(v.AccumulatedRewardsWei), new(big.Int).Set(v.PendingRewardsWei), v.SubscriptionType, addr, true}
		}
	}
	// a validator the pool does not know
	kind := []int{1, 4, 0, 2, 3}[vPick("newcomer", vParam("newcomers", 2))]
	if kind < 4 {
		who := addr
		if kind == 3 {
			who = vAddrs[1]
		}
		cred := vCred(who, byte(kind))
		if kind == 3 {
			cred = vCred(who, 1)
		}
		b := vBeaconVal(vNewcomer, cred, v1.ValidatorStateActiveOngoing, vU64("balance"), 32000000000)
		e.beacon[phase0Idx(vNewcomer)] = b
		if kind == 1 || kind == 2 {
			want[vNewcomer] = &vShadow{oracle.Untracked, new(big.Int), new(big.Int), 0, addr, false}
		}
	}
	for _, b := range e.beacon {
		if vParam("states", 3) == 10 {
			b.Status = v1.ValidatorState(vInt("beaconStatus", 0, 9))
		} else {
			b.Status = []v1.ValidatorState{v1.ValidatorStateActiveOngoing, v1.ValidatorStateActiveExiting, v1.ValidatorStateUnknown}[vPick("beaconStatus", vParam("states", 3))]
		}
	}
	ev := &vEvents{}
	if vParam("fail", 0) == 1 {
		ev.fail = vPick("fail", 5)
	}
	e.events(ev)
	ids := []uint64{vBase, vNewcomer, 7}
	senders := []string{addr, vAddrs[1]}
	for i := 0; i < vParam("subs", 1); i++ {
		ev.subs = append(ev.subs, &contract.ContractSubscribeValidator{Sender: common.HexToAddress(senders[vPick("sender", 2)]), SubscriptionCollateral: vBig("deposit", 96),
			ValidatorID: ids[vPick("id", len(ids))], Raw: types.Log{BlockNumber: vU64("subBlock")}})
	}
	for i := 0; i < vParam("unsubs", 1); i++ {
		ev.unsubs = append(ev.unsubs, &contract.ContractUnsubscribeValidator{Sender: common.HexToAddress(senders[vPick("sender", 2)]),
			ValidatorID: ids[vPick("id", len(ids))], Raw: types.Log{BlockNumber: vU64("unsubBlock")}})
	}
	e.earlier(func() {
		now := *ev
		ev.fail, ev.unsubs = 0, nil
		ev.subs = []*contract.ContractSubscribeValidator{{Sender: common.HexToAddress(addr), SubscriptionCollateral: big.NewInt(3), ValidatorID: vBase, Raw: types.Log{BlockNumber: 5}}}
		e.byAddress(typed)
		*ev = now
	})
	before := e.snap()
	r := e.byAddress(typed)
	e.same(before)
	if len(want) == 0 {
		vReach("none")
		var got []vListed
		r.into(&got)
		vAssert(r.code == 200 && len(got) == 0, "no validator has this address")
		return
	}
	if vForce(e.st.LatestProcessedBlock == 0) || ev.fail != 0 {
		vReach("failed")
		vAssert(r.code == 500, "what happened since the finalized block is unknown")
		return
	}
	vReach("overlay")
	vAssert(r.code == 200, "served")
	// the blocks with events, in order: in each, subscriptions before unsubscriptions
	var order []uint64
	for _, s := range ev.subs {
		order = vInsert(order, s.Raw.BlockNumber)
	}
	for _, u := range ev.unsubs {
		order = vInsert(order, u.Raw.BlockNumber)
	}
	for _, b := range order {
		for _, s := range ev.subs {
			w, known := want[s.ValidatorID], e.beacon[phase0Idx(s.ValidatorID)]
			if w == nil || known == nil || !vForce(s.Raw.BlockNumber == b) {
				continue
			}
			open := vOr(w.status == oracle.Untracked, w.status == oracle.NotSubscribed)
			left := vOr(known.Status == v1.ValidatorStateActiveExiting, known.Status == v1.ValidatorStateActiveSlashed, known.Status == v1.ValidatorStateExitedUnslashed,
				known.Status == v1.ValidatorStateExitedSlashed, known.Status == v1.ValidatorStateWithdrawalPossible, known.Status == v1.ValidatorStateWithdrawalDone, known.Status == v1.ValidatorStateUnknown)
			if vForce(vAnd(open, s.Sender == common.HexToAddress(addr), s.SubscriptionCollateral.Cmp(e.cfg.CollateralInWei) >= 0, vNot(left))) {
				w.status = oracle.Active
				w.pend = new(big.Int).Add(w.pend, s.SubscriptionCollateral)
			}
		}
		for _, u := range ev.unsubs {
			w := want[u.ValidatorID]
			if w == nil || e.beacon[phase0Idx(u.ValidatorID)] == nil || !vForce(u.Raw.BlockNumber == b) {
				continue
			}
			if vForce(vAnd(vSubscribed(w.status), u.Sender == common.HexToAddress(addr))) {
				w.status = oracle.NotSubscribed
				w.pend = new(big.Int)
			}
		}
	}
	var got []vListed
	r.into(&got)
	k := 0
	for _, i := range []uint64{vBase, vBase + 1, vBase + 2, vNewcomer} {
		w, b := want[i], e.beacon[phase0Idx(i)]
		if w == nil || b == nil {
			continue
		}
		vAssert(k < len(got), "every validator of the address is listed, in order")
		l := got[k]
		k++
		vAssert(l.Index == i, "index")
		vAssert(vStatusIs(l.Status, w.status), "status once the events are finalized")
		vAssert(vEqStr(l.Pend, w.pend.String()), "pending rewards once the events are finalized")
		vAssert(vEqStr(l.Acc, w.acc.String()), "accumulated rewards of the finalized state")
		vAssert(vEqStr(l.Address, addr), "address")
		vAssert(vSubTypeIs(l.SubType, w.subtype), "subscription type")
		vAssert(vAnd(vEqStr(l.Balance, vDec(uint64(b.Balance))), vEqStr(l.EB, vDec(uint64(b.Validator.EffectiveBalance)))), "balances on the beacon chain")
		vAssert(vEqStr(l.BeaconStatus, b.Status.String()), "status on the beacon chain")
	}
	vAssert(k == len(got), "no other validator is listed")
}

// vInsert adds a number to an ascending list, once.
func vInsert(l []uint64, x uint64) []uint64 {
	for i, y := range l {
		if vForce(x == y) {
			return l
		}
		if vForce(x < y) {
			return append(append(append([]uint64{}, l[:i]...), x), l[i:]...)
		}
	}
	return append(l, x)
}

// vC25Refuse: no answer while syncing, for other texts than addresses, or before the validators are known.
func vC25Refuse() {
	e := vNewEnv(1)
	typed := []string{vAddrs[0], "0x00000000000000000000000000000000000000a", "", "0x00000000000000000000000000000000000000ag", "00000000000000000000000000000000000000aaaa"}[vPick("typed", 5)]
	e.down = vPick("down", 2) == 1
	empty := vPick("empty", 2) == 1
	if empty {
		oracle.VSetValidators(e.s.Onchain, nil)
	}
	e.events(&vEvents{})
	before := e.snap()
	r := e.byAddress(typed)
	e.same(before)
	vReach("answered")
	if !vForce(e.ready()) {
		vAssert(r.code == 503, "not served while the oracle is syncing")
	} else if typed != vAddrs[0] {
		vAssert(r.code == 400, "a text that is no address is refused")
	} else if empty {
		vAssert(r.code == 500, "not served before the beacon validators are known")
	}
}
