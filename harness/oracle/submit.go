package oracle

// The transaction with the report.

import (
	"context"
	"crypto/ecdsa"
	"encoding/hex"
	"errors"
	"math/big"
	"time"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/utils"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
)

// an error whose text says nothing
var vErrNode = errors.New("Post \"http://node:4040\": no answer")

var vErrLate = errors.New("context deadline exceeded")

type vCtx struct {
	context.Context
	err error
}

func (c *vCtx) Err() error { return c.err }

var vWait *vCtx

func vDeadline(ctx context.Context, t time.Time) (context.Context, context.CancelFunc) {
	vWait = &vCtx{Context: ctx}
	return vWait, func() {}
}

func vTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return vDeadline(ctx, time.Time{})
}

// vC38Submit: any slot and root, any node.
func vC38Submit() {
	key := &ecdsa.PrivateKey{}
	updater := common.HexToAddress(vAddrOf(0))
	oc := &Onchain{ExecutionClient: &ethclient.Client{}, Contract: &contract.Contract{}, NumRetries: 1, PoolAddress: vPool, ChainId: MainnetChainId,
		updaterKey: key, UpdaterAddress: updater}
	chain := vBig("chain", 62)
	vReport(oc, updater, chain, vParam("again", 0) == 1)
	if vParam("again", 0) == 1 {
		vReach("again")
		vReport(oc, updater, chain, false)
	}
}

// vReport: one report; the quiet one is a report before the one that is looked at, with no failures.
func vReport(oc *Onchain, updater common.Address, chain *big.Int, quiet bool) {
	key := oc.updaterKey
	vWait = nil
	calls, failAt := 0, -1
	if !quiet && vPick("fails", 2) == 1 {
		failAt = vPick("failAt", 5)
	}
	failed := false
	step := func() error {
		calls++
		if calls-1 == failAt {
			failed = true
			return vErrNode
		}
		return nil
	}
	nonce := vU64("nonce")
	vAssume(nonce < 1<<62) // EIP-2681
	crypto.VStub_PubkeyToAddress = func(k ecdsa.PublicKey) common.Address { return updater }
	ethclient.VStub_Client_PendingNonceAt = func(c *ethclient.Client, ctx context.Context, a common.Address) (uint64, error) {
		vAssert(a == updater, "the nonce is the one of the updater")
		return nonce, step()
	}
	ethclient.VStub_Client_NonceAt = func(c *ethclient.Client, ctx context.Context, a common.Address, n *big.Int) (uint64, error) {
		vAssert(a == updater, "the nonce is the one of the updater")
		used := vU64("used") // transactions still pending are not counted
		vAssume(used <= nonce)
		return used, step()
	}
	ethclient.VStub_Client_NetworkID = func(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return chain, step() }
	ethclient.VStub_Client_ChainID = func(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return chain, step() }
	auth := &bind.TransactOpts{From: updater}
	bind.VStub_NewKeyedTransactorWithChainID = func(k *ecdsa.PrivateKey, id *big.Int) (*bind.TransactOpts, error) {
		vAssert(k == key, "the key is the updater's")
		vAssert(vEq(id, chain), "the transaction is for the chain of the node")
		return auth, step()
	}
	contract.VStub_NewContract = func(a common.Address, b bind.ContractBackend) (*contract.Contract, error) {
		vAssert(a == common.HexToAddress(vPool), "the report goes to the pool")
		return &contract.Contract{}, nil
	}
	slot := vU64("slot")
	root := vBytes("root", 32)
	sent := 0
	contract.VStub_ContractTransactor_SubmitReport = func(c *contract.ContractTransactor, o *bind.TransactOpts, s uint64, r [32]byte) (*types.Transaction, error) {
		sent++
		same := []bool{s == slot}
		for i := range r {
			same = append(same, r[i] == root[i])
		}
		vAssert(vAnd(same...), "the report is of the slot and root given")
		vAssert(o == auth && !o.NoSend, "the report is signed by the updater, and sent")
		vAssert(o.Nonce != nil && vForce(vEq(o.Nonce, new(big.Int).SetUint64(nonce))), "the report comes after everything sent before")
		vAssert(o.Value == nil || o.Value.Sign() == 0, "no ether is sent along")
		vAssert(o.GasLimit == 0 && o.GasPrice == nil && o.GasFeeCap == nil && o.GasTipCap == nil, "the gas is what the network asks for")
		if err := step(); err != nil {
			return nil, err
		}
		pool := common.HexToAddress(vPool)
		return utils.DecodeTx(vMkTx(0, 4, &pool, big.NewInt(0), big.NewInt(1), nil, 0, MainnetChainId, nil))
	}
	end := -1
	status := vU64("status")
	vAssume(status <= 1)
	bind.VStub_WaitMined = func(ctx context.Context, b bind.DeployBackend, tx *types.Transaction) (*types.Receipt, error) {
		vAssert(vWait != nil && ctx == context.Context(vWait), "the wait has an end")
		end = vPick("end", 3)
		rc := &types.Receipt{BlockNumber: big.NewInt(9), Status: status}
		switch end {
		case 1: // it was not mined in time
			vWait.err = vErrLate
			return nil, vWait.err
		case 2: // just in time
			vWait.err = vErrLate
		}
		return rc, nil
	}
	// the root as it may be written
	text := hex.EncodeToString(root)
	good := true
	form := 0
	if !quiet {
		form = vPick("text", 5)
	}
	switch form {
	case 0:
		text = "0x" + text
	case 1:
	case 2: // too short
		text, good = "0x"+text[:62], false
	case 3: // too long
		text, good = text+"00", false
	case 4: // not hexadecimal
		text, good = "0x"+text[:40]+"g"+text[41:], false
	}
	var err error
	r := vTry(func() { err = oc.UpdateContractMerkleRoot(slot, text) })
	vAssert(r == 0, "a report never crashes the oracle")
	if !good {
		vReach("bad root")
		vAssert(err != nil && sent == 0, "what is not a root is not sent")
		return
	}
	if failed {
		vReach("failed")
		vAssert(err != nil && end < 0, "a node that fails is reported")
		return
	}
	vAssert(sent == 1, "the report is sent once")
	if end == 1 {
		vReach("timeout")
		vAssert(err != nil, "a report that was not mined was not accepted")
		return
	}
	if vForce(status == 1) {
		vReach("accepted")
		vAssert(err == nil || end == 2, "a report that was mined was accepted")
	} else {
		vReach("refused")
		vAssert(err != nil, "a transaction that failed was not accepted")
	}
}
