package api

import (
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common/hexutil"
)

// a validator as the list endpoints show it
type vListed struct {
	Status       string `json:"status"`
	BeaconStatus string `json:"beacon_status"`
	Balance      string `json:"beacon_balance_gwei"`
	EB           string `json:"beacon_effective_balance_gwei"`
	Acc          string `json:"accumulated_rewards_wei"`
	Pend         string `json:"pending_rewards_wei"`
	Coll         string `json:"collateral_wei"`
	Address      string `json:"withdrawal_address"`
	Index        uint64 `json:"validator_index"`
	Key          string `json:"validator_key"`
	SubType      string `json:"subscription_type"`
}

// a validator as the single endpoint shows it
type vShown struct {
	Status  string   `json:"status"`
	Acc     *big.Int `json:"accumulated_rewards_wei"`
	Pend    *big.Int `json:"pending_rewards_wei"`
	Coll    *big.Int `json:"collateral_wei"`
	Address string   `json:"withdrawal_address"`
	Index   uint64   `json:"validator_index"`
	Key     string   `json:"validator_key"`
	SubType string   `json:"subscription_type"`
}

var vStatusName = []string{"unknownstate", "active", "yellowcard", "redcard", "notsubscribed", "banned", "untracked"}

// vStatusIs: the name of a status.
func vStatusIs(name string, s oracle.ValidatorStatus) bool {
	out := make([]bool, 0)
	for i, n := range vStatusName {
		out = append(out, vAnd(vEqStr(name, n), s == oracle.ValidatorStatus(i)))
	}
	return vOr(out...)
}

func vSubTypeIs(name string, s oracle.SubscriptionType) bool {
	return vOr(vAnd(vEqStr(name, "manual"), s == oracle.Manual), vAnd(vEqStr(name, "auto"), s == oracle.Auto))
}

func (e *vEnv) isListed(l vListed, v *oracle.ValidatorInfo) {
	b := e.beacon[phase0Idx(v.ValidatorIndex)]
	vAssert(l.Index == v.ValidatorIndex, "index")
	vAssert(vStatusIs(l.Status, v.ValidatorStatus), "status")
	vAssert(vEqStr(l.Acc, v.AccumulatedRewardsWei.String()), "accumulated rewards")
	vAssert(vEqStr(l.Pend, v.PendingRewardsWei.String()), "pending rewards")
	vAssert(vEqStr(l.Coll, v.CollateralWei.String()), "collateral")
	vAssert(vAnd(vEqStr(l.Address, v.WithdrawalAddress), vEqStr(l.Key, v.ValidatorKey)), "address and key")
	vAssert(vSubTypeIs(l.SubType, v.SubscriptionType), "subscription type")
	vAssert(vAnd(vEqStr(l.Balance, vDec(uint64(b.Balance))), vEqStr(l.EB, vDec(uint64(b.Validator.EffectiveBalance)))), "balances on the beacon chain")
	vAssert(vEqStr(l.BeaconStatus, b.Status.String()), "status on the beacon chain")
}

// some of the tracked validators may be unknown at the last refresh of the beacon validators
func (e *vEnv) forget() {
	for i := 0; i < e.n; i++ {
		if vPick("forget", 2) == 1 {
			delete(e.beacon, phase0Idx(vBase+uint64(i)))
		}
	}
}

// vC31List: all the validators.
func vC31List() {
	e := vNewEnv(vParam("n", 2))
	e.forget()
	e.earlier(func() { vGet(e.s.handleMemoryValidators) })
	before := e.snap()
	r := vGet(e.s.handleMemoryValidators)
	e.same(before)
	if !vForce(e.ready()) {
		vReach("syncing")
		vAssert(r.code == 503, "not served while the oracle is syncing")
		return
	}
	vReach("listed")
	vAssert(r.code == 200, "served")
	var got []vListed
	r.into(&got)
	k := 0
	for i := 0; i < e.n; i++ {
		v := e.st.Validators[vBase+uint64(i)]
		if e.beacon[phase0Idx(v.ValidatorIndex)] == nil {
			continue
		}
		vAssert(k < len(got), "every validator is listed")
		e.isListed(got[k], v)
		k++
	}
	vAssert(k == len(got), "nothing else is listed")
}

// vC31Index: one validator by its index, for any text given as the index.
func vC31Index() {
	e := vNewEnv(vParam("n", 1))
	n := vPick("len", vParam("len", 5))
	text := vStr("index", n)
	digits := []bool{n > 0}
	val := uint64(0)
	for i := 0; i < n; i++ {
		digits = append(digits, vAnd(text[i] >= '0', text[i] <= '9'))
		val = val*10 + uint64(text[i]) - '0'
	}
	valid := vForce(vAnd(digits...))
	e.earlier(func() { vGet(e.s.handleMemoryValidatorInfo, "valindex", text) })
	before := e.snap()
	r := vGet(e.s.handleMemoryValidatorInfo, "valindex", text)
	e.same(before)
	if !vForce(e.ready()) {
		vAssert(r.code == 503, "not served while the oracle is syncing")
		return
	}
	if !valid {
		vReach("invalid")
		vAssert(r.code == 400, "a text that is no number is refused")
		return
	}
	for i := 0; i < e.n; i++ {
		if vForce(val == vBase+uint64(i)) {
			vReach("found")
			vAssert(r.code == 200, "a tracked validator is found")
			var s vShown
			r.into(&s)
			v := e.st.Validators[vBase+uint64(i)]
			vAssert(s.Index == v.ValidatorIndex, "index")
			vAssert(vStatusIs(s.Status, v.ValidatorStatus), "status")
			vAssert(vAnd(vEq(s.Acc, v.AccumulatedRewardsWei), vEq(s.Pend, v.PendingRewardsWei), vEq(s.Coll, v.CollateralWei)), "balances")
			vAssert(vAnd(vEqStr(s.Address, v.WithdrawalAddress), vEqStr(s.Key, v.ValidatorKey)), "address and key")
			vAssert(vSubTypeIs(s.SubType, v.SubscriptionType), "subscription type")
			return
		}
	}
	vReach("unknown")
	vAssert(r.code == 400, "a validator the pool does not know is refused")
}

// vC31Indices: several validators by their indices.
func vC31Indices() {
	e := vNewEnv(vParam("n", 1))
	e.forget()
	fixed := []string{"", "x", "-1", "18446744073709551615", "18446744073709551616"}
	text := ""
	var asked []uint64
	valid := true
	for i := 0; i <= vPick("count", vParam("count", 3)); i++ {
		if i > 0 {
			text += ","
		}
		if k := vPick("entry", len(fixed)+vParam("digits", 2)); k < len(fixed) {
			text += fixed[k]
			valid = valid && k == 3
			asked = append(asked, []uint64{0, 0, 0, 18446744073709551615, 0}[k])
		} else {
			// any number of one digit, or of three
			d := vStr("entry", []int{3, 1}[k-len(fixed)])
			val := uint64(0)
			for j := 0; j < len(d); j++ {
				vAssume(vAnd(d[j] >= '0', d[j] <= '9'))
				val = val*10 + uint64(d[j]) - '0'
			}
			text += d
			asked = append(asked, val)
		}
	}
	e.earlier(func() { vGet(e.s.handleMemoryValidatorsByIndex, "valindices", text) })
	before := e.snap()
	r := vGet(e.s.handleMemoryValidatorsByIndex, "valindices", text)
	e.same(before)
	if !valid {
		vReach("invalid")
		vAssert(r.code == 400, "a list with something that is no index is refused")
		return
	}
	vReach("listed")
	vAssert(r.code == 200, "served")
	var got struct {
		Found    []vListed `json:"found_validators"`
		NotFound []uint64  `json:"not_found_validators"`
	}
	r.into(&got)
	f, nf := 0, 0
	for _, i := range asked {
		var v *oracle.ValidatorInfo
		for j := 0; j < e.n; j++ {
			if vForce(i == vBase+uint64(j)) {
				v = e.st.Validators[vBase+uint64(j)]
			}
		}
		if v == nil {
			vAssert(nf < len(got.NotFound) && got.NotFound[nf] == i, "an unknown index is reported")
			nf++
		} else if e.beacon[phase0Idx(v.ValidatorIndex)] != nil {
			vAssert(f < len(got.Found), "a known index is reported")
			e.isListed(got.Found[f], v)
			f++
		}
	}
	vAssert(f == len(got.Found) && nf == len(got.NotFound), "nothing else is reported")
}

// vC31Limit: long lists, with and without repetitions.
func vC31Limit() {
	e := vNewEnv(1)
	n := 99 + vPick("count", 3)
	rep := 1 + vPick("different", 3)*60 // 1, 61 or all of them different
	text, known := "", 0
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ","
		}
		if i%rep == 0 {
			known++
		}
		text += vDec(vBase + uint64(i%rep))
	}
	before := e.snap()
	r := vGet(e.s.handleMemoryValidatorsByIndex, "valindices", text)
	e.same(before)
	if n > 100 {
		vReach("too many")
		vAssert(r.code == 400, "a list of more than 100 numbers is refused")
		return
	}
	vReach("listed")
	vAssert(r.code == 200, "served")
	var got struct {
		Found    []vListed `json:"found_validators"`
		NotFound []uint64  `json:"not_found_validators"`
	}
	r.into(&got)
	vAssert(len(got.Found) == known && len(got.NotFound) == n-known, "as many answers as questions")
	for _, l := range got.Found {
		e.isListed(l, e.st.Validators[vBase])
	}
}

func vHexDigits(s string, from int) bool {
	out := make([]bool, 0)
	for i := from; i < len(s); i++ {
		out = append(out, vOr(vAnd(s[i] >= '0', s[i] <= '9'), vAnd(s[i] >= 'a', s[i] <= 'f'), vAnd(s[i] >= 'A', s[i] <= 'F')))
	}
	return vAnd(out...)
}

// vC31Address: which texts are taken for addresses and public keys.
func vC31Address() {
	n := 40 + vPick("len", 4)
	s := vStr("address", n)
	want := vAnd(n == 42, s[0] == '0', s[1] == 'x', vHexDigits(s, 2))
	vAssert(vIff(IsValidAddress(s), want), "an address is 0x and 40 hex digits")
	vReach("address")
}

func vC31Key() {
	n := 97 + vPick("len", 3)
	s := vStr("key", n)
	want := vAnd(n == 98, s[0] == '0', s[1] == 'x', vHexDigits(s, 2))
	vAssert(vIff(IsValidPubkey(s), want), "a public key is 0x and 96 hex digits")
	vReach("key")
}

// vC31Withdrawal: the validators of an address, when nothing happened since the finalized block.
func (e *vEnv) byAddress(addr string) *vResp {
	return vGet(e.s.handleMemoryValidatorsByWithdrawal, "withdrawalAddress", addr)
}

func vKeyOf(v *v1.Validator) string { return hexutil.Encode(v.Validator.PublicKey[:]) }
