package oracle

import "math/big"

// What is guaranteed to every validator whatever happens in a slot: nothing already claimable is taken back, no balance
// is ever negative, only a subscription, a block or a reward of its own moves it, and no slot stops the oracle.

type vBal struct {
	st        ValidatorStatus
	acc, pend *big.Int
	key       string
	coll      *big.Int
}

type vMono struct {
	e    *vEnv
	m    *vModel
	v    map[uint64]vBal
	pool *big.Int
	ban  map[uint64]bool // banned (and maybe unbanned) by the pool's owner in the slot
}

func vMonoOf(e *vEnv) *vMono {
	x := &vMono{e: e, m: vModelOf(e), v: map[uint64]vBal{}, ban: map[uint64]bool{}, pool: new(big.Int).Set(e.or.State().PoolAccumulatedFees)}
	for i, v := range e.or.State().Validators {
		x.v[i] = vBal{v.ValidatorStatus, new(big.Int).Set(v.AccumulatedRewardsWei), new(big.Int).Set(v.PendingRewardsWei), v.ValidatorKey, new(big.Int).Set(v.CollateralWei)}
	}
	return x
}

// check: m.neg is only set when the rule before fork 1 hands out negative shares (a recorded finding).
func (x *vMono) check() {
	st := x.e.or.State()
	zero := new(big.Int)
	good := st.PoolAccumulatedFees.Cmp(x.pool) >= 0
	for _, v := range st.Validators {
		good = vAnd(good, v.AccumulatedRewardsWei.Cmp(zero) >= 0, v.PendingRewardsWei.Cmp(zero) >= 0)
	}
	for i, b := range x.v {
		v := st.Validators[i]
		vAssert(v != nil, "a tracked validator stays tracked")
		good = vAnd(good, v.AccumulatedRewardsWei.Cmp(b.acc) >= 0)
		// pending rewards are only lost by becoming claimable or by leaving or failing the pool
		lost := v.PendingRewardsWei.Cmp(b.pend) < 0
		claimed := new(big.Int).Sub(v.AccumulatedRewardsWei, b.acc).Cmp(b.pend) >= 0
		left := vOr(v.ValidatorStatus == Banned, v.ValidatorStatus == NotSubscribed, x.ban[i])
		good = vAnd(good, vImplies(lost, vOr(claimed, vAnd(left, vSubscribed(b.st)))))
	}
	if vForce(x.m.neg) {
		vAssert(good, "negative-share-before-fork1")
	} else {
		vAssert(good, "claimable balances and pool fees never decrease, nothing is negative, pending is only lost by leaving")
	}
	for _, v := range st.Validators {
		vAssert(vOr(v.ValidatorStatus == Active, v.ValidatorStatus == YellowCard, v.ValidatorStatus == RedCard, v.ValidatorStatus == NotSubscribed, v.ValidatorStatus == Banned), "status is one of the five")
	}
}

// vC05Slot: a block of any kind and any events, of any proposer, never stop the oracle nor take back what is owed.
func vC05Slot() {
	n := vParam("n", 2)
	net := vParam("net", -1)
	if net < 0 {
		net = vPick("net", 3)
	}
	e := vNewEnv(n, net)
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	vAssume(e.slot%1200 != 0)
	x := vMonoOf(e)
	proposer := vBase + uint64(vPick("proposer", n+1))
	credKind := vPick("cred", 3)
	fb := e.fullBlock(proposer, vCredOf(vAddrOf(7), byte(credKind)))
	kind := vPick("kind", 6)
	reward := vBig("reward", 96)
	ev := &Events{}
	if kind != 0 && vParam("donation", 1) == 1 {
		d := vBig("donation", 96)
		vAssume(vNot(vEq(d, reward))) // it would be taken for the builder's payment
		ev.EtherReceived = append(ev.EtherReceived, e.ether(d))
	}
	e.propose(fb, kind, new(big.Int).Set(reward), ev)
	// amounts the old rule would turn negative (the model is only asked about those)
	switch kind {
	case 0:
		x.m.missed(proposer)
	case 1, 2, 5:
		if credKind != 0 {
			x.m.proposalOk(proposer, vAddrOf(7), reward)
		}
	default:
		x.m.wrongFee(proposer)
	}
	for i, d := range ev.EtherReceived {
		if i == 0 && vParam("donation", 1) == 1 {
			x.m.share(d.DonationAmount)
		}
	}
	var got uint64
	var err error
	code := vTry(func() { got, err = e.or.AdvanceStateToNextSlot(fb) })
	vAssert(code == 0, "the slot does not stop the oracle")
	vAssert(err == nil, "the slot is processed")
	vAssert(got == e.slot, "the slot is the expected one")
	vReach("slot")
	x.check()
}

// vC05Events: subscriptions, unsubscriptions, bans and unbans.
func vC05Events() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", 3))
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	vAssume(e.slot%1200 != 0)
	x := vMonoOf(e)
	fb := e.fullBlock(vBase+uint64(n)+5, vCredOf(vAddrOf(7), 1))
	ev := &Events{}
	switch vParam("what", 0) {
	case 0:
		s := e.subEvent(n)
		ev.SubscribeValidator = append(ev.SubscribeValidator, s.ev)
		fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.val)
		x.m.subscribe(s.idx, s.coll, s.sender, s.exists, s.can, s.addr)
	case 1:
		s := e.unsubEvent(n)
		ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, s.ev)
		fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.val)
		x.m.unsubscribe(s.idx, s.sender, s.exists, s.addr)
	case 2:
		ban, unban := vBase+uint64(vPick("ban", n+1)), vBase+uint64(vPick("unban", n+1))
		ev.BanValidator = append(ev.BanValidator, e.banEvent(ban))
		ev.UnbanValidator = append(ev.UnbanValidator, e.unbanEvent(unban))
		x.m.ban([]uint64{ban})
		x.ban[ban] = true
		x.m.unban([]uint64{unban})
	}
	e.propose(fb, 4, big.NewInt(1), ev)
	var err error
	code := vTry(func() { _, err = e.or.AdvanceStateToNextSlot(fb) })
	vAssert(code == 0, "the slot does not stop the oracle")
	vAssert(err == nil, "the slot is processed")
	vReach("slot")
	x.check()
}

// vC05Cleanup: the periodic cleanup.
func vC05Cleanup() {
	n := vParam("n", 2)
	e := vCleanupEnv(n, vParam("nets", 3), vParam("consols", 1), n+2)
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	x := vMonoOf(e)
	fb := e.fullBlock(vBase+6, vCredOf(vAddrOf(7), 1))
	e.propose(fb, 4, big.NewInt(1), &Events{})
	var err error
	code := vTry(func() { _, err = e.or.AdvanceStateToNextSlot(fb) })
	vAssert(code == 0, "the slot does not stop the oracle")
	vAssert(err == nil, "the slot is processed")
	vReach("slot")
	st := e.or.State()
	zero := new(big.Int)
	good := st.PoolAccumulatedFees.Cmp(x.pool) >= 0
	for _, v := range st.Validators {
		good = vAnd(good, v.AccumulatedRewardsWei.Cmp(zero) >= 0, v.PendingRewardsWei.Cmp(zero) >= 0)
	}
	for i, b := range x.v {
		v := st.Validators[i]
		vAssert(v != nil, "a tracked validator stays tracked")
		good = vAnd(good, v.AccumulatedRewardsWei.Cmp(b.acc) == 0)
		good = vAnd(good, vImplies(v.PendingRewardsWei.Cmp(b.pend) < 0, vNot(vActive(e.beacon[i]))))
		good = vAnd(good, vImplies(b.st == Banned, v.ValidatorStatus == Banned))
	}
	vAssert(good, "the cleanup takes nothing from active validators and nothing claimable from anyone")
}
