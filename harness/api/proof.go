package api

import (
	"encoding/hex"
	"math/big"
	"strings"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
)

type vProof struct {
	Address   string   `json:"leaf_withdrawal_address"`
	Balance   string   `json:"leaf_accumulated_balance"`
	Root      string   `json:"merkleroot"`
	Slot      uint64   `json:"checkpoint_slot"`
	Proofs    []string `json:"merkle_proofs"`
	Vals      []uint64 `json:"registered_validators"`
	Total     string   `json:"total_accumulated_rewards_wei"`
	Claimed   string   `json:"already_claimed_rewards_wei"`
	Claimable string   `json:"claimable_rewards_wei"`
	Pending   string   `json:"pending_rewards_wei"`
}

func vLeafHash(addr string, amount *big.Int) []byte {
	b := make([]byte, 0, 52)
	b = append(b, common.HexToAddress(addr).Bytes()...)
	a := make([]byte, 32)
	amount.FillBytes(a)
	b = append(b, a...)
	return crypto.Keccak256(b)
}

// vVerify: the verification done by the contract (sorted pairs).
func vVerify(root string, leaf []byte, proof []string) bool {
	h := leaf
	for _, p := range proof {
		s, err := hex.DecodeString(strings.TrimPrefix(p, "0x"))
		if err != nil || len(s) != 32 {
			return false
		}
		if string(h) <= string(s) {
			h = crypto.Keccak256(append(append([]byte{}, h...), s...))
		} else {
			h = crypto.Keccak256(append(append([]byte{}, s...), h...))
		}
	}
	return hexutil.Encode(h) == root
}

// vC32Proof: what a user needs to claim, against the contract.
func vC32Proof() {
	n := vParam("n", 2)
	e := vNewEnv(n)
	e.assumeReady()
	var onRoot string
	var onSlot uint64
	claimed := vBig("claimed", 96)
	fail := 0
	typed := []string{vAddrs[0], "0x00000000000000000000000000000000000000AA", vAddrs[2], vPoolFee, "0xaa"}[vPick("typed", 5)]
	addr := strings.ToLower(typed)
	contract.VStub_ContractCaller_LastConsolidatedSlot = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
		if fail == 1 {
			return 0, errNode
		}
		return onSlot, nil
	}
	contract.VStub_ContractCaller_RewardsRoot = func(c *contract.ContractCaller, o *bind.CallOpts) ([32]byte, error) {
		if fail == 2 {
			return [32]byte{}, errNode
		}
		var r [32]byte
		copy(r[:], common.FromHex(onRoot))
		return r, nil
	}
	contract.VStub_ContractCaller_ClaimedBalance = func(c *contract.ContractCaller, o *bind.CallOpts, a common.Address) (*big.Int, error) {
		vAssert(a == common.HexToAddress(addr), "the claims of the address are asked for")
		if fail == 3 {
			return nil, errNode
		}
		return claimed, nil
	}
	e.earlier(func() {
		vAssert(e.or.FreezeCheckpoint(), "the checkpoint is committed")
		onSlot = e.st.LatestProcessedSlot
		onRoot = e.st.CommitedStates[onSlot].MerkleRoot
		vGet(e.s.handleOnchainMerkleProof, "withdrawalAddress", typed)
	})
	fail = vPick("fail", 4)
	slot := e.st.LatestProcessedSlot
	ok := e.or.FreezeCheckpoint()
	vAssert(ok, "the checkpoint is committed")
	root := e.st.CommitedStates[slot].MerkleRoot
	// the balances when it was committed
	sum, pend, vals := map[string]*big.Int{}, map[string]*big.Int{}, map[string]int{}
	for _, v := range e.st.Validators {
		a := v.WithdrawalAddress
		if sum[a] == nil {
			sum[a], pend[a] = new(big.Int), new(big.Int)
		}
		sum[a].Add(sum[a], v.AccumulatedRewardsWei)
		pend[a].Add(pend[a], v.PendingRewardsWei)
		vals[a]++
	}
	fees := new(big.Int).Set(e.st.PoolAccumulatedFees)
	// and later ones
	e.st.LatestProcessedSlot += 5
	e.st.NextSlotToProcess += 5
	e.fin += 5
	e.st.PoolAccumulatedFees = new(big.Int).Add(fees, big.NewInt(9))
	for _, v := range e.st.Validators {
		v.AccumulatedRewardsWei.Add(v.AccumulatedRewardsWei, big.NewInt(3))
		v.PendingRewardsWei.Add(v.PendingRewardsWei, big.NewInt(4))
	}
	// somebody else subscribed since then
	late := *e.st.Validators[vBase]
	late.ValidatorIndex = vBase + 50
	late.AccumulatedRewardsWei, late.PendingRewardsWei = big.NewInt(5), big.NewInt(6)
	e.st.Validators[vBase+50] = &late
	// what the contract says
	onRoot, onSlot = root, slot
	other := vPick("contract", 3)
	switch other {
	case 1:
		onSlot = vU64("otherSlot")
		vAssume(vAnd(onSlot != slot, onSlot < 1<<40))
	case 2:
		b := vBytes("otherRoot", 32)
		onRoot = hexutil.Encode(b)
		vAssume(vNot(vEqStr(onRoot, root)))
	}
	before := e.snap()
	r := vGet(e.s.handleOnchainMerkleProof, "withdrawalAddress", typed)
	e.same(before)
	bal := sum[addr]
	if addr == vPoolFee {
		bal = fees
	}
	if addr == "0xaa" {
		vAssert(r.code == 400, "a text that is no address is refused")
		return
	}
	if other != 0 || fail == 1 || fail == 2 {
		vReach("mismatch")
		vAssert(r.code == 500, "no proof for another root than the contract's")
		return
	}
	if bal == nil {
		vReach("unknown")
		vAssert(r.code == 400, "an address without a leaf is refused")
		return
	}
	if fail == 3 {
		vAssert(r.code == 500, "unknown claims are no answer")
		return
	}
	vReach("proof")
	vAssert(r.code == 200, "served")
	var p vProof
	r.into(&p)
	vAssert(vEqStr(p.Address, addr), "address of the leaf")
	vAssert(vAnd(vEqStr(p.Balance, bal.String()), vEqStr(p.Total, bal.String())), "balance of the leaf")
	vAssert(vAnd(vEqStr(p.Root, onRoot), p.Slot == onSlot), "root and slot of the contract")
	vAssert(vVerify(onRoot, vLeafHash(p.Address, bal), p.Proofs), "the contract accepts the proof")
	vAssert(vAnd(vEqStr(p.Claimed, claimed.String()), vEqStr(p.Claimable, new(big.Int).Sub(bal, claimed).String())), "claimed and claimable rewards")
	if addr != vPoolFee {
		vAssert(vEqStr(p.Pending, pend[addr].String()), "pending rewards at the checkpoint")
	}
	vAssert(len(p.Vals) == vals[addr], "validators of the address at the checkpoint")
	for _, i := range p.Vals {
		v := e.st.Validators[i]
		vAssert(i != vBase+50 && v != nil && v.WithdrawalAddress == addr, "validators of the address at the checkpoint")
	}
}

func vC32Syncing() {
	e := vNewEnv(1)
	e.down = vPick("down", 2) == 1
	vAssume(vNot(e.ready()))
	vReach("syncing")
	r := vGet(e.s.handleOnchainMerkleProof, "withdrawalAddress", vAddrs[0])
	vAssert(r.code == 503, "not served while the oracle is syncing")
}
