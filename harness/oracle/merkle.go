package oracle

import (
	"encoding/hex"
	"math/big"
	"sort"
	"strings"

	"github.com/dappnode/mev-sp-oracle/utils"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
)

// mixed case spellings of few addresses
var vSpell = []string{
	"0x00000000000000000000000000000000000000aa", "0x00000000000000000000000000000000000000Aa",
	"0x00000000000000000000000000000000000000bB", "0x000000000000000000000000000000000000000C",
	"0x0000000000000000000000000000000000000001",
}

// vLedger: a state with n validators with any balances and any of the withdrawal addresses.
func vLedger(n, addrs int, bits int) *OracleState {
	cfg := &Config{Network: Mainnet, PoolAddress: vPool, DeployedSlot: 10, DeployedBlock: 5, CheckPointSizeInSlots: 7200,
		PoolFeesPercentOver10000: 700, PoolFeesAddress: vPoolFee, CollateralInWei: big.NewInt(1)}
	st := NewOracle(cfg).State()
	vLedgerInto(st, n, addrs, bits)
	return st
}

func vLedgerInto(st *OracleState, n, addrs int, bits int) {
	st.PoolAccumulatedFees = vBig("poolFees", bits)
	for i := 0; i < n; i++ {
		idx := vBase + uint64(i)
		st.Validators[idx] = &ValidatorInfo{
			ValidatorStatus:       ValidatorStatus(vInt("status", 1, 5)),
			AccumulatedRewardsWei: vBig("acc", bits),
			PendingRewardsWei:     vBig("pend", bits),
			CollateralWei:         big.NewInt(1),
			WithdrawalAddress:     vSpell[vPick("addr", addrs)],
			ValidatorIndex:        idx,
			ValidatorKey:          "0xab",
		}
	}
	for k := 0; k < vParam("fill", 0); k++ { // many more, two of each address in different spellings
		a := vFillAddr(k / 2)
		if k%2 == 1 {
			a = "0x" + strings.ToUpper(a[2:])
		}
		idx := vBase + uint64(n+k)
		if vParam("fixed", 0) == 1 { // with these balances the order of the hashes is known
			st.Validators[idx] = &ValidatorInfo{ValidatorStatus: Active, AccumulatedRewardsWei: big.NewInt(int64(k) * 1000003), PendingRewardsWei: big.NewInt(5),
				CollateralWei: big.NewInt(1), WithdrawalAddress: a, ValidatorIndex: idx, ValidatorKey: "0xab"}
			continue
		}
		st.Validators[idx] = &ValidatorInfo{ValidatorStatus: ValidatorStatus(1 + k%5), AccumulatedRewardsWei: vBig("acc", bits), PendingRewardsWei: vBig("pend", bits),
			CollateralWei: big.NewInt(1), WithdrawalAddress: a, ValidatorIndex: idx, ValidatorKey: "0xab"}
	}
}

// the leaves as specified: pool fees first, then one leaf per withdrawal address in ascending order.
func vExpectLeaves(st *OracleState) []RawLeaf {
	sum := map[string]*big.Int{}
	var keys []string
	for i := uint64(0); i < uint64(len(st.Validators)); i++ {
		v := st.Validators[vBase+i]
		a := strings.ToLower(v.WithdrawalAddress)
		if sum[a] == nil {
			sum[a] = new(big.Int)
			keys = append(keys, a)
		}
		sum[a].Add(sum[a], v.AccumulatedRewardsWei)
	}
	sort.Strings(keys)
	out := []RawLeaf{{strings.ToLower(st.PoolFeesAddress), new(big.Int).Set(st.PoolAccumulatedFees)}}
	for _, k := range keys {
		out = append(out, RawLeaf{k, sum[k]})
	}
	return out
}

// vC09Leaves: what is committed onchain for every address.
func vC09Leaves() {
	n := vParam("n", 3)
	st := vLedger(n, vParam("addrs", 4), 200)
	if vPick("order", 2) == 1 {
		vMapOrder(1)
	}
	want := vExpectLeaves(st)
	snap := map[uint64]*big.Int{}
	for i, v := range st.Validators {
		snap[i] = new(big.Int).Set(v.AccumulatedRewardsWei)
	}
	got := NewMerklelizer().AggregateValidatorsIndexes(st)
	vReach("leaves")
	vAssert(len(got) == len(want), "one leaf per withdrawal address and one for the pool")
	tot := new(big.Int)
	for i := range want {
		vAssert(vEqStr(got[i].WithdrawalAddress, want[i].WithdrawalAddress), "leaf address and order")
		vAssert(vEq(got[i].AccumulatedBalanceWei, want[i].AccumulatedBalanceWei), "leaf balance")
		vObs("leaf", got[i].AccumulatedBalanceWei)
		tot.Add(tot, got[i].AccumulatedBalanceWei)
	}
	for i, v := range st.Validators {
		vAssert(vEq(v.AccumulatedRewardsWei, snap[i]), "computing the leaves does not change the balances")
	}
	for i := range got {
		got[i].AccumulatedBalanceWei.Add(got[i].AccumulatedBalanceWei, big.NewInt(1))
	}
	for i, v := range st.Validators {
		vAssert(vEq(v.AccumulatedRewardsWei, snap[i]), "leaves share no storage with the balances")
	}
}

func vLeafHash(l RawLeaf) []byte {
	a := common.HexToAddress(l.WithdrawalAddress)
	b := make([]byte, 0, 52)
	b = append(b, a.Bytes()...)
	amount := make([]byte, 32)
	l.AccumulatedBalanceWei.FillBytes(amount)
	b = append(b, amount...)
	return crypto.Keccak256(b)
}

// vVerify: the verification done by the contract (sorted pairs).
func vVerify(root string, leaf []byte, proof []string) bool {
	h := leaf
	for _, p := range proof {
		s, err := hex.DecodeString(strings.TrimPrefix(p, "0x"))
		if err != nil {
			return false
		}
		vAssert(len(s) == 32, "proof element is a hash")
		if string(h) <= string(s) {
			h = crypto.Keccak256(append(append([]byte{}, h...), s...))
		} else {
			h = crypto.Keccak256(append(append([]byte{}, s...), h...))
		}
	}
	return hexutil.Encode(h) == root
}

// vC10Hex: hashes are written as they are, with all of their bytes.
func vC10Hex() {
	n := vParam("n", 1)
	var hs [][]byte
	for i := 0; i < n; i++ {
		hs = append(hs, vBytes("hash", 32))
	}
	out := utils.ByteArrayToArray(hs)
	vReach("hex")
	vAssert(len(out) == n, "as many as there are")
	for i := range hs {
		vAssert(len(out[i]) == 66, "a hash is written with all of its bytes")
		vAssert(vEqStr(out[i], hexutil.Encode(hs[i])), "a hash is written with all of its bytes")
	}
}

// vC10Proofs: freezing a checkpoint yields for every address a proof of exactly its balance.
func vC10Proofs() {
	n := vParam("n", 2)
	cfg := &Config{Network: Mainnet, PoolAddress: vPool, DeployedSlot: 10, DeployedBlock: 5, CheckPointSizeInSlots: 7200,
		PoolFeesPercentOver10000: 700, PoolFeesAddress: vPoolFee, CollateralInWei: big.NewInt(1)}
	or := NewOracle(cfg)
	st := or.State()
	if vParam("bits", 0) == 0 {
		vLedgerInto(st, n, vParam("addrs", 3), 1)
	} else {
		vLedgerInto(st, n, vParam("addrs", 3), vParam("bits", 0))
	}
	st.LatestProcessedSlot = vU64("slot")
	want := vExpectLeaves(st)
	ok := or.FreezeCheckpoint()
	vReach("frozen")
	vAssert(ok == (len(want) >= 2), "a checkpoint needs at least one tracked validator")
	if !ok {
		vAssert(len(st.CommitedStates) == 0, "nothing committed")
		return
	}
	vAssert(len(st.CommitedStates) == 1, "one checkpoint committed")
	c := st.CommitedStates[st.LatestProcessedSlot]
	vAssert(c != nil, "committed under the latest processed slot")
	vAssert(c.Slot == st.LatestProcessedSlot, "slot of the checkpoint")
	vAssert(vAnd(len(c.Proofs) == len(want), len(c.Leafs) == len(want)), "a proof and a leaf for every address")
	for _, w := range want {
		l, found := c.Leafs[w.WithdrawalAddress]
		vAssert(found, "leaf of the address")
		vAssert(vEqStr(l.WithdrawalAddress, w.WithdrawalAddress), "leaf address")
		vAssert(vEq(l.AccumulatedBalanceWei, w.AccumulatedBalanceWei), "leaf balance")
		p, found := c.Proofs[w.WithdrawalAddress]
		vAssert(found, "proof of the address")
		vAssert(vVerify(c.MerkleRoot, vLeafHash(w), p), "the proof verifies against the root")
	}
}
