package oracle

// What is asked of the two nodes and of the contract, and what is made of the answers.

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"math/big"
	"net/http"

	"github.com/attestantio/go-eth2-client/api"
	v1 "github.com/attestantio/go-eth2-client/api/v1"
	chttp "github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
)

var vErrRead = &api.Error{Method: "GET", StatusCode: 503, Data: []byte("no answer 404")}

type vReads struct {
	op, failOp, failFor int
	failed              bool // an operation failed for good
	tries               uint
	want                uint
	block               *big.Int // the block that the data has to be of, nil for the latest
}

// step: a call to a node or the contract.
func (r *vReads) step() error {
	if r.op-1 == r.failOp && r.failFor > 0 {
		r.failFor--
		return vErrRead
	}
	return nil
}

func (r *vReads) do(f retry.RetryableFunc, opts ...retry.Option) error {
	r.op++
	n := retry.VAttempts(opts)
	vAssert(n == r.want, "a call is tried as often as configured, or as asked for")
	var err error
	for i := uint(0); i < n; i++ {
		if err = f(); err == nil {
			return nil
		}
	}
	r.failed = true
	return err
}

// at: an eth_call, of the latest block or the one given.
func (r *vReads) at(o *bind.CallOpts) error {
	vAssert(!o.Pending, "nothing pending is read")
	if r.block == nil {
		vAssert(o.BlockNumber == nil, "the latest block is read")
	} else {
		vAssert(o.BlockNumber != nil && vForce(vEq(o.BlockNumber, r.block)), "the block asked for is read")
	}
	return r.step()
}

func vNewReads() (*vReads, *Onchain, []retry.Option) {
	r := &vReads{failOp: -1}
	retry.VStub_Do = r.do
	oc := &Onchain{ConsensusClient: &chttp.Service{}, ExecutionClient: &ethclient.Client{}, Contract: &contract.Contract{},
		NumRetries: 1, PoolAddress: vPool, ChainId: MainnetChainId}
	r.want = 1
	if vParam("again", 0) == 1 {
		return r, oc, nil
	}
	oc.NumRetries += vPick("retries", 2)
	r.want = uint(oc.NumRetries)
	var opts []retry.Option
	if vPick("opts", 2) == 1 {
		opts, r.want = []retry.Option{retry.Attempts(3)}, 3
	}
	if vPick("fails", 2) == 1 {
		r.failOp, r.failFor = vPick("failOp", 2), 1+vPick("failFor", 3)
	}
	return r, oc, opts
}

// The read before this one, of the same kind by the same oracle, if there was one.
type vEarlier struct {
	on     bool
	picks  map[string]int
	number uint64 // the slot or block it was of
	block  bool
	value  *big.Int
}

var vBefore vEarlier

// vSame: a pick that is the same in both reads.
func vSame(name string, n int) int {
	if vBefore.on {
		return vBefore.picks[name]
	}
	vBefore.picks[name] = vPick(name, n)
	return vBefore.picks[name]
}

// vOther64: what never changes on the chain may be kept, so the second read is of another slot or block.
func vOther64(name string) uint64 {
	n := vU64(name)
	if vBefore.on && vBefore.block {
		vAssume(n != vBefore.number)
	}
	vBefore.number, vBefore.block = n, true
	return n
}

// vReadTwice: with again=1 the read is made twice, and everything has changed in between.
func vReadTwice(read func(r *vReads, oc *Onchain, opts []retry.Option)) {
	r, oc, opts := vNewReads()
	vBefore = vEarlier{picks: map[string]int{}}
	read(r, oc, opts)
	if vParam("again", 0) == 1 {
		vReach("again")
		vBefore.on = true
		*r = vReads{failOp: -1, want: 1}
		read(r, oc, opts)
	}
}

// got: what was asked for, or an error if the node failed.
func (r *vReads) got(res int, err error) bool {
	vAssert(res == 0, "a read never stops the oracle")
	vAssert((err != nil) == r.failed, "an error exactly when a call failed as often as it was tried")
	if err == nil {
		vReach("answer")
	} else {
		vReach("error")
	}
	return err == nil
}

func vRoot32(name string) (out [32]byte) {
	copy(out[:], vBytes(name, 32))
	return
}

// vC37Contract: the contract's values.
func vC37Contract() { vReadTwice(vReadContract) }

func vReadContract(r *vReads, oc *Onchain, opts []retry.Option) {
	a, b := common.HexToAddress(vAddrOf(0)), common.HexToAddress(vAddrOf(1))
	var err error
	switch vSame("read", 11) {
	case 0:
		members := []common.Address{common.HexToAddress(vOther), a, b}[vPick("from", 3):]
		contract.VStub_ContractCaller_GetAllOracleMembers = func(c *contract.ContractCaller, o *bind.CallOpts) ([]common.Address, error) {
			return members, r.at(o)
		}
		var w bool
		who := []common.Address{a, b, common.HexToAddress(vOther), {}}[vPick("who", 4)]
		res := vTry(func() { w, err = oc.IsAddressWhitelisted(who, opts...) })
		if r.got(res, err) {
			in := false
			for _, m := range members {
				in = in || m == who
			}
			vAssert(w == in, "a member of the oracles, or not")
		} else {
			vAssert(!w, "an unknown answer is no membership")
		}
	case 1:
		h := vRoot32("hash")
		slot, votes := vU64("slot"), vU64("votes")
		contract.VStub_ContractCaller_AddressToVotedReportHash = func(c *contract.ContractCaller, o *bind.CallOpts, who common.Address) ([32]byte, error) {
			vAssert(who == a, "the vote is that of the address")
			if err := r.at(o); err != nil {
				return [32]byte{}, err
			}
			return h, nil
		}
		contract.VStub_ContractCaller_ReportHashToReport = func(c *contract.ContractCaller, o *bind.CallOpts, x [32]byte) (struct {
			Slot  uint64
			Votes uint64
		}, error) {
			vAssert(vForce(x == h), "the report is the one voted for")
			var out struct {
				Slot  uint64
				Votes uint64
			}
			if err := r.at(o); err != nil {
				return out, err
			}
			out.Slot, out.Votes = slot, votes
			return out, nil
		}
		var rep ReportType
		res := vTry(func() { rep, err = oc.GetAddressToVotedReport(a, opts...) })
		if r.got(res, err) {
			vAssert(vAnd(rep.Slot == slot, rep.Votes == votes), "the report is the one voted for")
		}
	case 2:
		contract.VStub_ContractCaller_GetAllOracleMembers = func(c *contract.ContractCaller, o *bind.CallOpts) ([]common.Address, error) {
			return []common.Address{a, b}, r.at(o)
		}
		var l []common.Address
		res := vTry(func() { l, err = oc.GetAllOracleMembers(opts...) })
		if r.got(res, err) {
			vAssert(len(l) == 2 && l[0] == a && l[1] == b, "all the members")
		}
	case 3, 4, 5:
		v := vU64("value")
		u := func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
			if err := r.at(o); err != nil {
				return 0, err
			}
			return v, nil
		}
		contract.VStub_ContractCaller_Quorum = u
		contract.VStub_ContractCaller_CheckpointSlotSize = u
		contract.VStub_ContractCaller_LastConsolidatedSlot = u
		var x uint64
		var res int
		switch vSame("which", 3) {
		case 0:
			res = vTry(func() { x, err = oc.GetQuorum(opts...) })
		case 1:
			res = vTry(func() { x, err = oc.GetSlotCheckpointSize(opts...) })
		case 2:
			res = vTry(func() { x, err = oc.GetLastConsolidatedSlot(opts...) })
		}
		if r.got(res, err) {
			vAssert(x == v, "the value of the contract")
		}
	case 6, 7:
		v := vBig("value", 256)
		if vBefore.on && vBefore.picks["which"] == 1 { // the deployment is over
			v = vBefore.value
		}
		vBefore.value = v
		u := func(c *contract.ContractCaller, o *bind.CallOpts) (*big.Int, error) {
			if err := r.at(o); err != nil {
				return nil, err
			}
			return v, nil
		}
		contract.VStub_ContractCaller_SubscriptionCollateral = u
		contract.VStub_ContractCaller_DeploymentBlockNumber = u
		contract.VStub_ContractCaller_PoolFee = u
		var x *big.Int
		var res int
		switch vSame("which", 3) {
		case 0:
			res = vTry(func() { x, err = oc.GetContractCollateral(opts...) })
		case 1:
			res = vTry(func() { x, err = oc.GetContractDeploymentBlock(opts...) })
		case 2:
			res = vTry(func() { x, err = oc.GetPoolFee(opts...) })
		}
		if r.got(res, err) {
			vAssert(vEq(x, v), "the value of the contract")
		}
	case 8:
		who := []common.Address{a, b, {}}[vPick("who", 3)]
		contract.VStub_ContractCaller_PoolFeeRecipient = func(c *contract.ContractCaller, o *bind.CallOpts) (common.Address, error) {
			if err := r.at(o); err != nil {
				return common.Address{}, err
			}
			return who, nil
		}
		var x string
		res := vTry(func() { x, err = oc.GetPoolFeeAddress(opts...) })
		if r.got(res, err) {
			vAssert(common.IsHexAddress(x) && common.HexToAddress(x) == who, "the fee address of the contract")
		}
	case 9, 10:
		root, slot := vRoot32("root"), vU64("slot")
		contract.VStub_ContractCaller_RewardsRoot = func(c *contract.ContractCaller, o *bind.CallOpts) ([32]byte, error) {
			if err := r.at(o); err != nil {
				return [32]byte{}, err
			}
			return root, nil
		}
		contract.VStub_ContractCaller_LastConsolidatedSlot = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
			if err := r.at(o); err != nil {
				return 0, err
			}
			return slot, nil
		}
		var x string
		if vSame("which", 2) == 0 {
			res := vTry(func() { x, err = oc.GetRewardsRoot(opts...) })
			if r.got(res, err) {
				vAssert(vEqStr(x, hexutil.Encode(root[:])), "the root of the contract")
			}
			return
		}
		var s uint64
		res := vTry(func() { x, s, err = oc.GetOnchainSlotAndRoot(opts...) })
		if r.got(res, err) {
			vAssert(vAnd(vEqStr(x, hexutil.Encode(root[:])), s == slot), "the slot and the root of the contract")
		}
	}
}

// vC37Balances: balances, of an account and a block.
func vC37Balances() { vReadTwice(vReadBalances) }

func vReadBalances(r *vReads, oc *Onchain, opts []retry.Option) {
	accounts := []string{vAddrOf(0), vAddrOf(1), vPoolFee}
	bal := map[common.Address]*big.Int{common.HexToAddress(vPool): vBig("pool", 120)}
	for _, a := range accounts {
		bal[common.HexToAddress(a)] = vBig("balance", 120)
	}
	if vPick("block", 2) == 1 {
		r.block = new(big.Int).SetUint64(vOther64("number"))
	}
	contract.VStub_ContractCaller_ClaimedBalance = func(c *contract.ContractCaller, o *bind.CallOpts, a common.Address) (*big.Int, error) {
		if err := r.at(o); err != nil {
			return nil, err
		}
		return bal[a], nil
	}
	ethclient.VStub_Client_BalanceAt = func(c *ethclient.Client, ctx context.Context, a common.Address, n *big.Int) (*big.Int, error) {
		if r.block == nil {
			vAssert(n == nil, "the latest block is read")
		} else {
			vAssert(n != nil && vForce(vEq(n, r.block)), "the block asked for is read")
		}
		if err := r.step(); err != nil {
			return nil, err
		}
		return bal[a], nil
	}
	var x *big.Int
	var err error
	who := accounts[vPick("who", 3)]
	switch vSame("read", 4) {
	case 0:
		res := vTry(func() { x, err = oc.GetContractClaimedBalance(who, r.block, opts...) })
		if r.got(res, err) {
			vAssert(vEq(x, bal[common.HexToAddress(who)]), "what the address has claimed")
		}
	case 1:
		res := vTry(func() { x, err = oc.GetPoolEthBalance(r.block, opts...) })
		if r.got(res, err) {
			vAssert(vEq(x, bal[common.HexToAddress(vPool)]), "the balance of the pool")
		}
	case 2:
		vAssume(r.block == nil)
		res := vTry(func() { x, err = oc.GetAddressEthBalance(common.HexToAddress(who), opts...) })
		if r.got(res, err) {
			vAssert(vEq(x, bal[common.HexToAddress(who)]), "the balance of the account")
		}
	case 3:
		ask := accounts[:vPick("asked", 4)]
		var m map[string]*big.Int
		res := vTry(func() { m, err = oc.GetClaimedPerWithdrawalAddress(ask, r.block, opts...) })
		if r.got(res, err) {
			vAssert(len(m) == len(ask), "what every address has claimed, and nobody else")
			for _, a := range ask {
				vAssert(m[a] != nil && vForce(vEq(m[a], bal[common.HexToAddress(a)])), "what every address has claimed, and nobody else")
			}
		}
	}
}

// vC37Sync: in sync only if both nodes say so.
func vC37Sync() { vReadTwice(vReadSync) }

func vReadSync(r *vReads, oc *Onchain, opts []retry.Option) {
	execBehind := vPick("execBehind", 2) == 1
	ethclient.VStub_Client_SyncProgress = func(c *ethclient.Client, ctx context.Context) (*ethereum.SyncProgress, error) {
		if err := r.step(); err != nil {
			return nil, err
		}
		if execBehind {
			return &ethereum.SyncProgress{CurrentBlock: vU64("current"), HighestBlock: vU64("highest")}, nil
		}
		return nil, nil
	}
	d := vU64("distance")
	chttp.VStub_Service_NodeSyncing = func(s *chttp.Service, ctx context.Context, o *api.NodeSyncingOpts) (*api.Response[*v1.SyncState], error) {
		if err := r.step(); err != nil {
			return nil, err
		}
		return &api.Response[*v1.SyncState]{Data: &v1.SyncState{SyncDistance: phase0.Slot(d)}}, nil
	}
	var in bool
	var err error
	res := vTry(func() { in, err = oc.AreNodesInSync(opts...) })
	if r.got(res, err) {
		vAssert(vIff(in, vAnd(!execBehind, d <= 5)), "in sync exactly when the execution node is, and the consensus node is at most 5 slots behind")
	} else {
		vAssert(!in, "a node that does not answer is not in sync")
	}
}

// vSameAnswer: what was read may be a copy of the answer.
func vSameAnswer(a, b *v1.Validator) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Validator == nil || b.Validator == nil {
		return vAnd(a.Validator == b.Validator, a.Index == b.Index, a.Balance == b.Balance)
	}
	return vAnd(a.Index == b.Index, a.Balance == b.Balance, a.Validator.ActivationEpoch == b.Validator.ActivationEpoch)
}

// vC37Validators: validators by index, at a slot.
func vC37Validators() { vReadTwice(vReadValidators) }

func vReadValidators(r *vReads, oc *Onchain, opts []retry.Option) {
	slot := vSlotStr(vOther64("slot"))
	i, j, k := phase0.ValidatorIndex(vU64("i")), phase0.ValidatorIndex(vU64("j")), phase0.ValidatorIndex(vU64("k"))
	vAssume(vAnd(i != j, i != k, j != k))
	val := func(i phase0.ValidatorIndex) *v1.Validator {
		return &v1.Validator{Index: i, Balance: phase0.Gwei(vU64("balance"))}
	}
	answer := map[phase0.ValidatorIndex]*v1.Validator{}
	state := slot
	var asked []phase0.ValidatorIndex
	chttp.VStub_Service_Validators = func(s *chttp.Service, ctx context.Context, o *api.ValidatorsOpts) (*api.Response[map[phase0.ValidatorIndex]*v1.Validator], error) {
		vAssert(vEqStr(o.State, state), "the validators are those of the slot")
		vAssert(len(o.Indices) == len(asked) && len(o.PubKeys) == 0, "the validators asked for are looked up")
		for n, x := range asked {
			vAssert(o.Indices[n] == x, "the validators asked for are looked up")
		}
		if err := r.step(); err != nil {
			return nil, err
		}
		return &api.Response[map[phase0.ValidatorIndex]*v1.Validator]{Data: answer}, nil
	}
	var err error
	switch vSame("read", 4) {
	case 3: // the validators of the beacon chain, kept for lookups
		state = "finalized"
		opts = nil
		r.want = uint(oc.NumRetries)
		n := vPick("validators", 3)
		some := false
		for x := phase0.ValidatorIndex(0); x < phase0.ValidatorIndex(n); x++ {
			answer[x] = val(x)
			epoch := vU64("activation")
			vAssume(epoch > 0)
			some = vOr(some, epoch != 1<<64-1)
			answer[x].Validator = &phase0.Validator{ActivationEpoch: phase0.Epoch(epoch)}
		}
		vAssume(vOr(n == 0, some)) // a chain without an activated validator has no blocks
		res := vTry(func() { oc.RefreshBeaconValidators() })
		if r.failed || n == 0 {
			vReach("stop")
			vAssert(res == 2, "without the validators the oracle stops")
			return
		}
		vAssert(res == 0, "a read never stops the oracle")
		m := oc.Validators()
		vAssert(len(m) == n, "all the validators")
		for x, v := range answer {
			vAssert(vSameAnswer(m[x], v), "all the validators")
		}
		vReach("answer")
	case 0:
		asked = []phase0.ValidatorIndex{i}
		shape := vPick("shape", 5)
		switch shape {
		case 1:
			answer[i] = val(i)
		case 2: // another validator
			answer[j] = val(j)
		case 3: // at the wrong place
			answer[i] = val(j)
		case 4:
			answer[i], answer[j] = val(i), val(j)
		}
		var v *v1.Validator
		res := vTry(func() { v, err = oc.GetSingleValidator(i, slot, opts...) })
		vAssert(res == 0, "a read never stops the oracle")
		vAssert((err != nil) == (r.failed || shape > 1), "an error exactly when a call failed or the answer is not of the validator")
		if err == nil {
			vReach("answer")
			vAssert(shape == 0 && v == nil || shape == 1 && v != nil && vSameAnswer(v, answer[i]), "the validator asked for, or none")
		}
	case 1:
		asked = []phase0.ValidatorIndex{i, j, k}[:vPick("asked", 4)]
		missing := -1
		for n, x := range asked {
			if n == 1 && vPick("missing", 2) == 1 {
				missing = n
				continue
			}
			answer[x] = val(x)
		}
		if len(asked) > 0 && vPick("none", 2) == 1 {
			answer, missing = nil, 0
		}
		var m map[phase0.ValidatorIndex]*v1.Validator
		res := vTry(func() { m, err = oc.GetSetOfValidators(asked, slot, opts...) })
		vAssert(res == 0, "a read never stops the oracle")
		vAssert((err != nil) == (r.failed || missing >= 0 || len(asked) == 0), "an error exactly when a call failed, or not all of the validators are in the answer")
		if len(asked) == 0 {
			vAssert(r.op == 0, "asking for no validator asks the node for nothing")
		}
		if err == nil {
			vReach("answer")
			for _, x := range asked {
				vAssert(m[x] != nil && vSameAnswer(m[x], answer[x]), "all the validators asked for")
			}
		}
	case 2:
		state = "finalized"
		answer[i], answer[j] = val(i), val(j)
		var m map[phase0.ValidatorIndex]*v1.Validator
		res := vTry(func() { m, err = oc.GetFinalizedValidators(opts...) })
		if r.got(res, err) {
			vAssert(len(m) == 2 && vSameAnswer(m[i], answer[i]) && vSameAnswer(m[j], answer[j]), "all the validators")
		}
	}
}

// vC37Heads: the finalized header and a block by its number.
func vC37Heads() { vReadTwice(vReadHeads) }

func vReadHeads(r *vReads, oc *Onchain, opts []retry.Option) {
	var err error
	switch vSame("read", 2) {
	case 0:
		h := &v1.BeaconBlockHeader{Canonical: true, Header: &phase0.SignedBeaconBlockHeader{Message: &phase0.BeaconBlockHeader{Slot: phase0.Slot(vU64("head"))}}}
		chttp.VStub_Service_BeaconBlockHeader = func(s *chttp.Service, ctx context.Context, o *api.BeaconBlockHeaderOpts) (*api.Response[*v1.BeaconBlockHeader], error) {
			vAssert(o.Block == "finalized", "only the finalized head counts")
			if err := r.step(); err != nil {
				return nil, err
			}
			return &api.Response[*v1.BeaconBlockHeader]{Data: h}, nil
		}
		var x *v1.BeaconBlockHeader
		res := vTry(func() { x, err = oc.FinalizedBeaconBlockHeader(opts...) })
		if r.got(res, err) {
			vAssert(x == h || x.Header.Message.Slot == h.Header.Message.Slot, "the finalized head")
		}
	case 1:
		n := new(big.Int).SetUint64(vOther64("number"))
		b := types.NewBlockWithHeader(&types.Header{Number: n, Time: 5})
		ethclient.VStub_Client_BlockByNumber = func(c *ethclient.Client, ctx context.Context, m *big.Int) (*types.Block, error) {
			vAssert(m != nil && vForce(vEq(m, n)), "the block asked for is read")
			if err := r.step(); err != nil {
				return nil, err
			}
			return b, nil
		}
		var x *types.Block
		res := vTry(func() { x, err = oc.BlockByNumber(n, opts...) })
		if r.got(res, err) {
			vAssert(x == b || x.Number().Cmp(n) == 0 && x.Time() == 5, "the block asked for")
		}
	}
}

var vHTTPClient vClient

type vClient struct {
	do func(q *http.Request) (*http.Response, error)
}

func (c vClient) Do(q *http.Request) (*http.Response, error) { return c.do(q) }

var vAskedURL string

func vNewRequest(method, url string, body io.Reader) (*http.Request, error) {
	vAssert(method == "GET" && body == nil, "the node is only read")
	vAskedURL = url
	return &http.Request{Method: method, Header: http.Header{}}, nil
}

type vPC struct {
	Source string `json:"source_index"`
	Target string `json:"target_index"`
}
type vPCs struct {
	Version    string `json:"version"`
	Optimistic bool   `json:"execution_optimistic"`
	Finalized  bool   `json:"finalized"`
	Data       []vPC  `json:"data"`
}

// vC37Consolidations: the pending consolidations at a slot.
func vC37Consolidations() { vReadTwice(vReadConsolidations) }

func vReadConsolidations(r *vReads, oc *Onchain, opts []retry.Option) {
	slot := vSlotStr(vOther64("slot"))
	chttp.VStub_Service_Address = func(s *chttp.Service) string { return "http://node:5052" }
	n := vPick("n", 3)
	pcs := vPCs{Version: "electra", Finalized: vBool("fin"), Data: []vPC{}}
	var want []PendingConsolidation
	for k := 0; k < n; k++ {
		s, t := vU64("source"), vU64("target")
		want = append(want, PendingConsolidation{phase0.ValidatorIndex(s), phase0.ValidatorIndex(t)})
		pcs.Data = append(pcs.Data, vPC{vSlotStr(s), vSlotStr(t)})
	}
	bad := vPick("bad", 5) // what the first answer is
	vHTTPClient.do = func(q *http.Request) (*http.Response, error) {
		vAssert(vEqStr(vAskedURL, "http://node:5052/eth/v1/beacon/states/"+slot+"/pending_consolidations"), "the pending consolidations of the slot")
		if err := r.step(); err != nil {
			return nil, err
		}
		status := 200
		var b []byte
		var err error
		switch bad {
		case 1:
			status, b = 404, []byte("{\"code\":404,\"message\":\"state not found\"}")
		case 2:
			status, b = 500, []byte("{}")
		case 3:
			b = []byte("<html>")
		case 4:
			status, b = 206, []byte("{\"data\":[]}")
		default:
			b, err = json.Marshal(pcs)
			vAssert(err == nil, "an answer")
		}
		return &http.Response{StatusCode: status, Body: io.NopCloser(bytes.NewReader(b))}, nil
	}
	var x *PendingConsolidationsResponse
	var err error
	res := vTry(func() { x, err = oc.GetPendingConsolidations(slot, opts...) })
	vAssert(res == 0, "a read never stops the oracle")
	vAssert((err != nil) == r.failed && (err != nil || bad == 0), "an error exactly when the answer cannot be had")
	if bad != 0 {
		vAssert(err != nil, "only a complete answer counts")
	}
	if err != nil {
		vReach("error")
		return
	}
	vReach("answer")
	vAssert(x != nil && len(x.Data) == n, "all the pending consolidations")
	for k := range want {
		vAssert(vAnd(x.Data[k].SourceIndex == want[k].SourceIndex, x.Data[k].TargetIndex == want[k].TargetIndex), "all the pending consolidations")
	}
}
