package oracle

// Reference model of one slot transition, written from spec/README.md and the documentation of the pool.

import (
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
)

type vmVal struct {
	st        ValidatorStatus
	acc, pend *big.Int
	coll      *big.Int
	addr      string
	sub       SubscriptionType
	key       string
}

type vModel struct {
	e    *vEnv
	pool *big.Int
	fee  int
	v    map[uint64]*vmVal
	ids  []uint64
	// number of recorded blocks
	nProposed, nMissed, nWrong, nDonations int
	shares                                 int
	neg                                    bool // the rule before fork 1 gives a negative share
}

func vModelOf(e *vEnv) *vModel {
	st := e.or.State()
	m := &vModel{e: e, pool: new(big.Int).Set(st.PoolAccumulatedFees), fee: st.PoolFeesPercentOver10000, v: map[uint64]*vmVal{}}
	for _, idx := range e.ids() {
		x := st.Validators[idx]
		m.v[idx] = &vmVal{x.ValidatorStatus, new(big.Int).Set(x.AccumulatedRewardsWei), new(big.Int).Set(x.PendingRewardsWei),
			new(big.Int).Set(x.CollateralWei), x.WithdrawalAddress, x.SubscriptionType, x.ValidatorKey}
		m.ids = append(m.ids, idx)
	}
	m.nProposed, m.nMissed, m.nWrong, m.nDonations = len(st.ProposedBlocks), len(st.MissedBlocks), len(st.WrongFeeBlocks), len(st.Donations)
	return m
}

func (m *vModel) create(idx uint64, addr string, coll *big.Int) *vmVal {
	x := &vmVal{NotSubscribed, new(big.Int), new(big.Int), coll, addr, Manual, vKeyText(idx)}
	m.v[idx] = x
	m.ids = append(m.ids, idx)
	return x
}

func (m *vModel) subscribed(idx uint64) bool {
	x, ok := m.v[idx]
	if !ok {
		return false
	}
	return vForce(vSubscribed(x.st))
}

func (m *vModel) banned(idx uint64) bool {
	x, ok := m.v[idx]
	return ok && x.st == Banned
}

// forks of the reward rules
func (m *vModel) method() int {
	s := m.e.slot
	switch m.e.net {
	case Mainnet:
		if s >= 11649024 {
			return 2
		}
		if s >= 10188220 {
			return 1
		}
	case Hoodi:
		if s >= 65536 {
			return 2
		}
		if s >= 1 {
			return 1
		}
	case Holesky:
		if s >= 2720632 {
			return 1
		}
	}
	return 0
}

// share distributes r among the eligible validators (Active, YellowCard).
func (m *vModel) share(r *big.Int) {
	m.shares++
	var el []uint64
	for _, i := range m.ids {
		if vForce(vEligible(m.v[i].st)) {
			el = append(el, i)
		}
	}
	if len(el) == 0 {
		m.pool.Add(m.pool, r)
		return
	}
	over := big.NewInt(10000)
	prod := new(big.Int).Mul(r, big.NewInt(int64(m.fee)))
	cut := new(big.Int).Div(prod, over)
	rest := new(big.Int).Sub(r, cut)
	given := new(big.Int)
	method := m.method()
	if method == 2 {
		tot := new(big.Int)
		for _, i := range el {
			tot.Add(tot, new(big.Int).SetUint64(m.e.ebOf(i)))
		}
		for _, i := range el {
			s := new(big.Int).Mul(rest, new(big.Int).SetUint64(m.e.ebOf(i)))
			s.Div(s, tot)
			m.v[i].pend.Add(m.v[i].pend, s)
			given.Add(given, s)
		}
	} else {
		if method == 0 {
			rest.Sub(rest, new(big.Int).Mod(prod, over))
			m.neg = vOr(m.neg, rest.Cmp(new(big.Int)) < 0)
		}
		s := new(big.Int).Div(rest, big.NewInt(int64(len(el))))
		for _, i := range el {
			m.v[i].pend.Add(m.v[i].pend, s)
			given.Add(given, s)
		}
	}
	m.pool.Add(m.pool, new(big.Int).Sub(r, given))
}

func (m *vModel) proposalOk(idx uint64, addr string, reward *big.Int) {
	x, ok := m.v[idx]
	if !ok {
		x = m.create(idx, addr, new(big.Int))
	}
	if x.st == NotSubscribed {
		x.st = Active
		x.sub = Auto
	}
	if x.st == Active || x.st == YellowCard {
		x.st = Active
	} else if x.st == RedCard {
		x.st = YellowCard
	}
	m.share(reward)
	x.acc.Add(x.acc, x.pend)
	x.pend = new(big.Int)
	m.nProposed++
}

func (m *vModel) missed(idx uint64) {
	if !m.subscribed(idx) {
		return
	}
	x := m.v[idx]
	if x.st == Active {
		x.st = YellowCard
	} else {
		x.st = RedCard
	}
	m.nMissed++
}

func (m *vModel) wrongFee(idx uint64) {
	if !m.subscribed(idx) {
		return
	}
	x := m.v[idx]
	x.st = Banned
	p := x.pend
	x.pend = new(big.Int)
	m.share(p)
	m.nWrong++
}

// subscribe: a subscription event. val: what the beacon chain says (exists, can subscribe, withdrawal address or "").
func (m *vModel) subscribe(idx uint64, collateral *big.Int, sender string, exists, can bool, addr string) {
	if !exists || !can || addr == "" || sender != addr {
		m.pool.Add(m.pool, collateral)
		return
	}
	if m.banned(idx) || m.subscribed(idx) {
		m.v[idx].acc.Add(m.v[idx].acc, collateral)
		return
	}
	if collateral.Cmp(m.e.or.State().CollateralInWei) < 0 {
		m.pool.Add(m.pool, collateral)
		return
	}
	x, ok := m.v[idx]
	if !ok {
		x = m.create(idx, addr, new(big.Int).Set(collateral))
	}
	x.st = Active
	x.sub = Manual
	x.pend.Add(x.pend, collateral)
}

func (m *vModel) unsubscribe(idx uint64, sender string, exists bool, addr string) {
	if !exists || addr == "" || sender != addr || !m.subscribed(idx) {
		return
	}
	x := m.v[idx]
	x.st = NotSubscribed
	p := x.pend
	x.pend = new(big.Int)
	m.share(p)
}

func (m *vModel) ban(ids []uint64) {
	tot := new(big.Int)
	for _, i := range ids {
		if !m.subscribed(i) {
			continue
		}
		x := m.v[i]
		x.st = Banned
		tot.Add(tot, x.pend)
		x.pend = new(big.Int)
	}
	if tot.Sign() > 0 {
		m.share(tot)
	}
}

func (m *vModel) unban(ids []uint64) {
	for _, i := range ids {
		if m.banned(i) {
			m.v[i].st = Active
		}
	}
}

// check compares the oracle's state with the model.
func (m *vModel) check(tag string) {
	st := m.e.or.State()
	vAssert(len(st.Validators) == len(m.ids), tag+": exactly the expected validators are tracked")
	for _, i := range m.ids {
		x, y := m.v[i], st.Validators[i]
		vAssert(y != nil, tag+": validator is tracked")
		vAssert(x.st == y.ValidatorStatus, tag+": validator status")
		vAssert(vEq(x.acc, y.AccumulatedRewardsWei), tag+": accumulated (claimable) rewards")
		vAssert(vEq(x.pend, y.PendingRewardsWei), tag+": pending rewards")
		vAssert(vEq(x.coll, y.CollateralWei), tag+": recorded collateral")
		vAssert(x.addr == y.WithdrawalAddress, tag+": withdrawal address")
		vAssert(x.sub == y.SubscriptionType, tag+": subscription type")
		vAssert(y.ValidatorIndex == i, tag+": validator index")
		vAssert(vEqStr(x.key, y.ValidatorKey), tag+": validator key")
		vObs("acc", y.AccumulatedRewardsWei)
		vObs("pend", y.PendingRewardsWei)
	}
	vAssert(vEq(m.pool, st.PoolAccumulatedFees), tag+": pool fees")
	vObs("pool", st.PoolAccumulatedFees)
	vAssert(len(st.ProposedBlocks) == m.nProposed, tag+": proposed blocks recorded")
	vAssert(len(st.MissedBlocks) == m.nMissed, tag+": missed blocks recorded")
	vAssert(len(st.WrongFeeBlocks) == m.nWrong, tag+": wrong fee blocks recorded")
	vAssert(len(st.Donations) == m.nDonations, tag+": donations recorded")
}

func (e *vEnv) ebOf(idx uint64) uint64 {
	if v, ok := e.eb[idx]; ok {
		return v
	}
	return 32000000000
}

func vCanSubscribe(s v1.ValidatorState) bool {
	return s == v1.ValidatorStatePendingInitialized || s == v1.ValidatorStatePendingQueued || s == v1.ValidatorStateActiveOngoing
}
