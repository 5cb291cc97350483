package oracle

import (
	"math/big"
)

const vExceptionReward = int64(177043568463114308)

// vC01Proposal: any proposal (missed, vanilla, MEV, wrong recipient, BLS) plus EtherReceived events conserve money.
func vC01Proposal() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", 3))
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	vAssume(e.slot%1200 != 0)
	proposer := vBase + uint64(vPick("proposer", n+1)) // n: an untracked validator
	cred := vCredOf(vAddrOf(7), byte(vPick("cred", 3)))
	fb := e.fullBlock(proposer, cred)
	before := vLiab(e.or.State())
	kind := vPick("kind", 6)
	reward := vBig("reward", 90)
	ev := &Events{}
	assets := new(big.Int)
	if kind != 0 {
		for i := 0; i < vParam("donations", 1); i++ {
			d := vBig("donation", 90)
			ev.EtherReceived = append(ev.EtherReceived, e.ether(d))
			assets.Add(assets, d)
		}
	}
	if kind == 1 || kind == 2 || kind == 5 {
		assets.Add(assets, reward)
	}
	e.propose(fb, kind, reward, ev)
	got, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vAssert(got == e.slot, "slot returned")
	vReach("advanced")
	diff := new(big.Int).Sub(vLiab(e.or.State()), before)
	vObs("diff", diff)
	vAssert(vEq(diff, assets), "liabilities grow by exactly what came in")
	// the oracle's own offchain reconciliation agrees: it starts from an empty history here
	vAssert(e.or.State().PoolAccumulatedFees.Sign() >= 0, "pool fees non negative")
}

// vC01Exception: the hardcoded mainnet slot.
func vC01Exception() {
	n := vParam("n", 2)
	e := vNewEnv(n, 0)
	vAssume(e.slot == ExceptionSlotMainnet1)
	proposer := vBase + uint64(vPick("proposer", n+1))
	fb := e.fullBlock(proposer, vCredOf(vAddrOf(7), 1))
	before := vLiab(e.or.State())
	ev := &Events{}
	assets := big.NewInt(vExceptionReward)
	for i := 0; i < vParam("donations", 1); i++ {
		d := vBig("donation", 90)
		ev.EtherReceived = append(ev.EtherReceived, e.ether(d))
		assets.Add(assets, d)
	}
	e.propose(fb, 3, vBig("value", 90), ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("advanced")
	diff := new(big.Int).Sub(vLiab(e.or.State()), before)
	vAssert(vEq(diff, assets), "liabilities grow by exactly what came in (exception slot)")
}

// vC01Events: subscriptions, unsubscriptions, bans and unbans in the same block, in any combination.
func vC01Events() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", vParam("nets", 2)))
	vAssume(e.slot%1200 != 0)
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	proposer := vBase + uint64(n) + 5
	fb := e.fullBlock(proposer, vCredOf(vAddrOf(7), 1))
	ev := &Events{}
	assets := new(big.Int)
	before := vLiab(e.or.State())
	what := vParam("what", -1)
	if what < 0 {
		what = vPick("what", 3)
	}
	switch what {
	case 0:
		for i := 0; i < vParam("subs", 1); i++ {
			sc := e.subEvent(n)
			assets.Add(assets, sc.coll)
			ev.SubscribeValidator = append(ev.SubscribeValidator, sc.ev)
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, sc.val)
		}
	case 1:
		sc := e.unsubEvent(n)
		ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, sc.ev)
		fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, sc.val)
	case 2:
		for i := 0; i < vParam("bans", 2); i++ {
			ev.BanValidator = append(ev.BanValidator, e.banEvent(vBase+uint64(vPick("ban", n+1))))
		}
		ev.UnbanValidator = append(ev.UnbanValidator, e.unbanEvent(vBase+uint64(vPick("unban", n+1))))
	}
	e.propose(fb, 4, big.NewInt(1), ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("advanced")
	diff := new(big.Int).Sub(vLiab(e.or.State()), before)
	vAssert(vEq(diff, assets), "subscriptions, unsubscriptions and bans conserve money")
}

func vC01TwoSubs() { vC01Events() }
