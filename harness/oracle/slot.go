package oracle

import (
	"math/big"
)

// vC02Split: what a single amount coming into the pool does, under every reward rule (fork).
func vC02Split() {
	n := vParam("n", 3)
	e := vNewEnv(n, vPick("net", 3))
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	vAssume(e.slot%1200 != 0)
	m := vModelOf(e)
	fb := e.fullBlock(vBase+uint64(n)+5, vCredOf(vAddrOf(7), 1))
	ev := &Events{}
	d := vBig("amount", 96)
	ev.EtherReceived = append(ev.EtherReceived, e.ether(new(big.Int).Set(d)))
	e.propose(fb, 4, big.NewInt(1), ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	m.share(d)
	m.nDonations++
	vReach("split")
	m.check("split")
	// the stated shape of the split, independent of the exact rule
	poolBefore := m.pool
	_ = poolBefore
	for _, s := range e.asked {
		vAssert(vEqStr(s, vSlotStr(e.slot)), "effective balances are those of the processed slot")
	}
}

// vC02Two: two amounts in the same block are split one after the other.
func vC02Two() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", 3))
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	vAssume(e.slot%1200 != 0)
	m := vModelOf(e)
	fb := e.fullBlock(vBase+uint64(n)+5, vCredOf(vAddrOf(7), 1))
	ev := &Events{}
	for i := 0; i < 2; i++ {
		d := vBig("amount", 96)
		ev.EtherReceived = append(ev.EtherReceived, e.ether(new(big.Int).Set(d)))
		m.share(d)
		m.nDonations++
	}
	e.propose(fb, 4, big.NewInt(1), ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("split")
	m.check("split")
}

// vC04Proposal: effect of a proposal of any kind on every tracked validator.
func vC04Proposal() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", 3))
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	vAssume(e.slot%1200 != 0)
	m := vModelOf(e)
	p0, m0, w0 := m.nProposed, m.nMissed, m.nWrong
	proposer := vBase + uint64(vPick("proposer", n+1))
	addr := vAddrOf(7)
	credKind := vPick("cred", 3)
	fb := e.fullBlock(proposer, vCredOf(addr, byte(credKind)))
	kind := vPick("kind", 6)
	reward := vBig("reward", 96)
	ev := &Events{}
	e.propose(fb, kind, new(big.Int).Set(reward), ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	switch kind {
	case 0:
		m.missed(proposer)
	case 1, 2, 5:
		if credKind == 0 {
			m.pool.Add(m.pool, reward)
			m.nProposed++
		} else {
			m.proposalOk(proposer, addr, reward)
		}
	default:
		m.wrongFee(proposer)
	}
	vReach("proposal")
	m.check("proposal")
	if m.nProposed == p0+1 && len(e.or.State().ProposedBlocks) == m.nProposed {
		b := e.or.State().ProposedBlocks[p0]
		vAssert(vEq(b.Reward, reward), "recorded reward")
		vAssert(b.Slot == e.slot, "recorded slot")
		vAssert(b.ValidatorIndex == proposer, "recorded proposer")
		vAssert(b.Block == e.block, "recorded block number")
		if kind == 1 {
			vAssert(b.RewardType == VanilaBlock, "recorded reward type")
		} else {
			vAssert(b.RewardType == MevBlock, "recorded reward type")
		}
	}
	if m.nMissed == m0+1 && len(e.or.State().MissedBlocks) == m.nMissed {
		vAssert(vAnd(e.or.State().MissedBlocks[m0].Slot == e.slot, e.or.State().MissedBlocks[m0].ValidatorIndex == proposer), "recorded missed block")
	}
	if m.nWrong == w0+1 && len(e.or.State().WrongFeeBlocks) == m.nWrong {
		vAssert(vAnd(e.or.State().WrongFeeBlocks[w0].Slot == e.slot, e.or.State().WrongFeeBlocks[w0].ValidatorIndex == proposer), "recorded wrong fee block")
	}
}

func (e *vEnv) quietBlock(ev *Events, fb *FullBlock) {
	e.propose(fb, 4, big.NewInt(1), ev)
}

func vEventsEnv(net int) (*vEnv, *vModel, *FullBlock) {
	n := vParam("n", 2)
	e := vNewEnv(n, net)
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	vAssume(e.slot%1200 != 0)
	return e, vModelOf(e), e.fullBlock(vBase+uint64(n)+5, vCredOf(vAddrOf(7), 1))
}

// vC06Sub: subscription events.
func vC06Sub() {
	e, m, fb := vEventsEnv(vPick("net", vParam("nets", 2)))
	ev := &Events{}
	for i := 0; i < vParam("subs", 1); i++ {
		s := e.subEvent(e.n)
		ev.SubscribeValidator = append(ev.SubscribeValidator, s.ev)
		fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.val)
		m.subscribe(s.idx, s.coll, s.sender, s.exists, s.can, s.addr)
	}
	e.quietBlock(ev, fb)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("subscription")
	m.check("subscription")
	vAssert(len(e.or.State().SubscriptionEvents) == vParam("subs", 1), "subscription events recorded")
}

func vC06SubPair() { vC06Sub() }

// vC07Unsub: unsubscription events.
func vC07Unsub() {
	e, m, fb := vEventsEnv(vPick("net", 3))
	ev := &Events{}
	for i := 0; i < vParam("unsubs", 1); i++ {
		s := e.unsubEvent(e.n)
		ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, s.ev)
		fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.val)
		m.unsubscribe(s.idx, s.sender, s.exists, s.addr)
	}
	e.quietBlock(ev, fb)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("unsubscription")
	m.check("unsubscription")
	vAssert(len(e.or.State().UnsubscriptionEvents) == vParam("unsubs", 1), "unsubscription events recorded")
}

func vC07UnsubPair() { vC07Unsub() }

// vC08Ban: manual bans and unbans of a block.
func vC08Ban() {
	e, m, fb := vEventsEnv(vPick("net", 3))
	ev := &Events{}
	nb, nu := vParam("bans", 1), vParam("unbans", 1)
	var bans, unbans []uint64
	for i := 0; i < nb; i++ {
		bans = append(bans, vBase+uint64(vPick("ban", e.n+1)))
		ev.BanValidator = append(ev.BanValidator, e.banEvent(bans[i]))
	}
	for i := 0; i < nu; i++ {
		unbans = append(unbans, vBase+uint64(vPick("unban", e.n+1)))
		ev.UnbanValidator = append(ev.UnbanValidator, e.unbanEvent(unbans[i]))
	}
	m.ban(bans)
	m.unban(unbans)
	e.quietBlock(ev, fb)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("ban")
	m.check("ban")
}

func vC08BanPair() { vC08Ban() }

// vC08Order: a proposal, a subscription, an unsubscription, a donation, a ban and an unban in one block are applied
// in the documented order.
func vC08Order() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", 2)*2)
	if e.net == Mainnet {
		vAssume(e.slot >= 11649024)
	} else {
		vAssume(e.slot >= 2720632)
	}
	vAssume(e.slot%1200 != 0)
	m := vModelOf(e)
	a, b := vBase, vBase+uint64(vParam("who", 0))
	proposer := a
	addr := vAddrOf(0)
	fb := e.fullBlock(proposer, vCredOf(addr, 1))
	ev := &Events{}
	kind := []int{0, 1, 3}[vPick("kind", 3)]
	reward := vBig("reward", 80)
	if kind != 0 && vPick("sub", 2) == 1 {
		s := e.simpleSub(b)
		ev.SubscribeValidator = append(ev.SubscribeValidator, s.ev)
		fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.val)
		m.subscribe(s.idx, s.coll, s.sender, true, true, s.addr)
	}
	switch kind {
	case 0:
		m.missed(proposer)
	case 1:
		m.proposalOk(proposer, addr, reward)
	default:
		m.wrongFee(proposer)
	}
	if kind != 0 {
		if vPick("unsub", 2) == 1 {
			s := e.simpleUnsub(b)
			ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, s.ev)
			fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.val)
			m.unsubscribe(b, s.sender, true, s.addr)
		}
		if vPick("donate", 2) == 1 {
			d := vBig("donation", 80)
			vAssume(vNot(vEq(d, reward)))
			ev.EtherReceived = append(ev.EtherReceived, e.ether(new(big.Int).Set(d)))
			m.share(d)
			m.nDonations++
		}
		if vPick("ban", 2) == 1 {
			ev.BanValidator = append(ev.BanValidator, e.banEvent(b))
			m.ban([]uint64{b})
		}
		if vPick("unban", 2) == 1 {
			ev.UnbanValidator = append(ev.UnbanValidator, e.unbanEvent(b))
			m.unban([]uint64{b})
		}
		e.propose(fb, kind, new(big.Int).Set(reward), ev)
	} else {
		fb.Events = ev
	}
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("order")
	m.check("order")
}
