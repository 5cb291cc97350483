package oracle

import (
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
)

// twin returns a second oracle with the same configuration and state and the same beacon chain.
func (e *vEnv) twin() *vEnv {
	f := *e
	c := *e.cfg
	f.or = NewOracle(&c)
	st, src := f.or.State(), e.or.State()
	st.NextSlotToProcess, st.LatestProcessedSlot, st.LatestProcessedBlock = src.NextSlotToProcess, src.LatestProcessedSlot, src.LatestProcessedBlock
	st.PoolAccumulatedFees = new(big.Int).Set(src.PoolAccumulatedFees)
	for _, idx := range e.ids() {
		v := vCopyVal(src.Validators[idx])
		st.Validators[idx] = &v
	}
	f.asked, f.nCalls, f.nConsol = nil, 0, 0
	p := &f
	f.or.SetGetSetOfValidatorsFunc(p.getSet)
	f.or.GetPendingConsolidationsFunc(p.getConsol)
	return p
}

// vSameState: the two oracles agree on everything that is committed, saved or served.
func vSameState(a, b *Oracle, ids []uint64, tag string) {
	x, y := a.State(), b.State()
	vAssert(len(x.Validators) == len(y.Validators), tag+": same validators")
	for _, i := range ids {
		v, w := x.Validators[i], y.Validators[i]
		vAssert((v == nil) == (w == nil), tag+": same validators")
		if v == nil {
			continue
		}
		vSameVal(*v, w, tag)
	}
	vAssert(vEq(x.PoolAccumulatedFees, y.PoolAccumulatedFees), tag+": pool fees")
	vAssert(x.LatestProcessedSlot == y.LatestProcessedSlot, tag+": slot")
	vAssert(x.LatestProcessedBlock == y.LatestProcessedBlock, tag+": block")
	vAssert(len(x.ProposedBlocks) == len(y.ProposedBlocks), tag+": proposed blocks")
	vAssert(len(x.Donations) == len(y.Donations), tag+": donations")
}

// vC03Slot: one slot on two oracles that iterate their tables in different orders.
func vC03Slot() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", 2)*2)
	vAssume(vAnd(e.slot != ExceptionSlotMainnet1, e.slot%1200 != 0))
	f := e.twin()
	who := vBase + uint64(vPick("who", n))
	kind := []int{0, 1, 3, 4}[vPick("kind", 4)]
	fb := e.fullBlock(who, vCredOf(vAddrOf(7), 1))
	ev := &Events{}
	if kind == 4 {
		switch vPick("event", 4) {
		case 0:
			s := e.simpleSub(who)
			ev.SubscribeValidator = append(ev.SubscribeValidator, s.ev)
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.val)
		case 1:
			s := e.simpleUnsub(who)
			ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, s.ev)
			fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.val)
		case 2:
			ev.BanValidator = append(ev.BanValidator, e.banEvent(who))
		case 3:
			ev.EtherReceived = append(ev.EtherReceived, e.ether(vBig("donation", 90)))
		}
	}
	e.propose(fb, kind, vBig("reward", 90), ev)
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vMapOrder(2)
	_, err = f.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vMapOrder(0)
	vReach("twins")
	ids := []uint64{vBase, vBase + 1, vBase + 2, vBase + 3}
	vSameState(e.or, f.or, ids, "twin")
}

// vC03Root: the committed root does not depend on iteration order.
func vC03Root() {
	n := vParam("n", 2)
	e := vNewEnv(n, 0)
	for i := 0; i < n; i++ {
		e.or.State().Validators[vBase+uint64(i)].WithdrawalAddress = vSpell[vPick("addr", 3)]
	}
	f := e.twin()
	ok1 := e.or.FreezeCheckpoint()
	vMapOrder(2)
	ok2 := f.or.FreezeCheckpoint()
	vMapOrder(0)
	vReach("roots")
	vAssert(vAnd(ok1, ok2), "checkpoint committed")
	vAssert(vEqStr(e.or.LatestCommitedState().MerkleRoot, f.or.LatestCommitedState().MerkleRoot), "same root")
}

func vActive(s v1.ValidatorState) bool {
	return vOr(s == v1.ValidatorStateActiveOngoing, s == v1.ValidatorStateActiveExiting, s == v1.ValidatorStateActiveSlashed)
}

// vCleanupEnv: a slot at which the cleanup runs, with pending consolidations among tracked and untracked validators.
func vCleanupEnv(n, nets, consols, targets int) *vEnv {
	e := vNewEnv(n, vPick("net", nets))
	q := vU64("cleanupSlot")
	vAssume(vAnd(q >= 1, q < 1<<29))
	e.slot = q * 1200
	st := e.or.State()
	st.NextSlotToProcess, st.LatestProcessedSlot = e.slot, e.slot-1
	for i := 0; i < n; i++ {
		e.beacon[vBase+uint64(i)] = v1.ValidatorState(vInt("beacon", 0, 9))
	}
	for i := 0; i < consols; i++ {
		s := vPick("source", n+1)
		t := vPick("target", targets)
		vAssume(s != t) // a self consolidation only switches credentials, it is never pending
		for _, c := range e.consol {
			if uint64(c.SourceIndex) == vBase+uint64(s) {
				vDrop() // a validator is the source of at most one pending consolidation
			}
		}
		e.consol = append(e.consol, PendingConsolidation{SourceIndex: phase0.ValidatorIndex(vBase + uint64(s)), TargetIndex: phase0.ValidatorIndex(vBase + uint64(t))})
		e.addrs[vBase+uint64(t)] = vAddrOf(t)
	}
	return e
}

// vC03Cleanup: the periodic cleanup on two oracles with different iteration orders.
func vC03Cleanup() {
	n := vParam("n", 2)
	e := vCleanupEnv(n, 1, vParam("consols", 1), n+1)
	vAssume(e.slot > 11649024)
	f := e.twin()
	fb := e.fullBlock(vBase+6, vCredOf(vAddrOf(7), 1))
	e.propose(fb, 4, big.NewInt(1), &Events{})
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vMapOrder(2)
	_, err = f.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vMapOrder(0)
	vReach("twins")
	ids := []uint64{vBase, vBase + 1, vBase + 2, vBase + 3}
	vSameState(e.or, f.or, ids, "cleanup-order")
}

// vC26Cleanup: what the periodic cleanup does.
func vC26Cleanup() {
	n := vParam("n", 2)
	e := vCleanupEnv(n, vParam("nets", 3), vParam("consols", 1), n+2)
	vAssume(vNot(vAnd(e.net == Mainnet, e.slot == ExceptionSlotMainnet1)))
	m := vModelOf(e)
	electra := false
	after := false
	switch e.net {
	case Mainnet:
		after, electra = e.slot >= 10188220, e.slot >= 11649024
	case Hoodi:
		after, electra = e.slot >= 1, e.slot >= 65536
	case Holesky:
		after, electra = e.slot >= 2720632, true // no slot configured: consolidations are looked up from fork 1 on
	}
	if after {
		type gone struct{ idx uint64 }
		rest := new(big.Int)
		for i := 0; i < n; i++ {
			idx := vBase + uint64(i)
			x := m.v[idx]
			if vForce(vActive(e.beacon[idx])) || x.pend.Sign() == 0 {
				continue
			}
			if vForce(vSubscribed(x.st)) {
				x.st = NotSubscribed
			}
			p := x.pend
			x.pend = new(big.Int)
			var target uint64
			has := false
			if electra {
				for _, c := range e.consol {
					if uint64(c.SourceIndex) == idx {
						target, has = uint64(c.TargetIndex), true
					}
				}
			}
			if !has {
				rest.Add(rest, p)
				continue
			}
			y, tracked := m.v[target]
			if tracked {
				if y.st == Banned {
					rest.Add(rest, p)
					continue
				}
				// a target that is itself gone passes on what it got before its own turn (ascending index)
			} else {
				y = m.create(target, e.addrOf(target), new(big.Int))
			}
			y.pend.Add(y.pend, p)
		}
		if rest.Sign() != 0 {
			m.share(rest)
		}
	}
	fb := e.fullBlock(vBase+6, vCredOf(vAddrOf(7), 1))
	e.propose(fb, 4, big.NewInt(1), &Events{})
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("cleanup")
	m.check("cleanup")
	for _, s := range e.asked {
		vAssert(vEqStr(s, vSlotStr(e.slot)), "beacon state of the processed slot")
	}
}

// vC26Only: no cleanup at other slots.
func vC26Only() {
	n := vParam("n", 2)
	e := vNewEnv(n, vPick("net", 3))
	vAssume(vAnd(e.slot != ExceptionSlotMainnet1, e.slot%1200 != 0))
	m := vModelOf(e)
	for i := 0; i < n; i++ {
		e.beacon[vBase+uint64(i)] = v1.ValidatorStateExitedUnslashed
	}
	fb := e.fullBlock(vBase+6, vCredOf(vAddrOf(7), 1))
	e.propose(fb, 4, big.NewInt(1), &Events{})
	_, err := e.or.AdvanceStateToNextSlot(fb)
	vAssert(err == nil, "advance succeeds")
	vReach("quiet")
	m.check("no cleanup")
}
