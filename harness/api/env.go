package api

// The API on an arbitrary state of the oracle; the nodes are answered from here.

import (
	"context"
	"encoding/json"
	"errors"
	"math/big"
	"net/http"
	"strconv"

	eapi "github.com/attestantio/go-eth2-client/api"
	v1 "github.com/attestantio/go-eth2-client/api/v1"
	chttp "github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/gorilla/mux"
)

const (
	vPool    = "0xadfb8d27671f14f297ee94135e266aaff8752e35"
	vPoolFee = "0x00000000000000000000000000000000000000fe"
	vBase    = uint64(100)
)

// the withdrawal addresses in use, as the oracle records them, and as a user may type them
var vAddrs = []string{"0x00000000000000000000000000000000000000aa", "0x00000000000000000000000000000000000000bb", "0x00000000000000000000000000000000000000cc"}

type vEnv struct {
	s       *ApiService
	or      *oracle.Oracle
	cfg     *oracle.Config
	st      *oracle.OracleState
	fin     uint64
	down    bool // the consensus node does not answer
	n       int
	beacon  map[phase0.ValidatorIndex]*v1.Validator
	headers int
}

var errNode = errors.New("the node does not answer")

type vResp struct {
	hdr  http.Header
	code int
	body []byte
}

func (r *vResp) Header() http.Header {
	if r.hdr == nil {
		r.hdr = http.Header{}
	}
	return r.hdr
}
func (r *vResp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *vResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = b
	return 0, nil
}

func vGet(h func(http.ResponseWriter, *http.Request), kv ...string) *vResp {
	w := &vResp{}
	vars := map[string]string{}
	for i := 0; i < len(kv); i += 2 {
		vars[kv[i]] = kv[i+1]
	}
	code := vTry(func() { h(w, mux.SetURLVars(&http.Request{}, vars)) })
	vAssert(code != 2, "a request never stops the oracle")
	vAssert(code == 0, "a request is always answered")
	vAssert(w.code != 0, "a request gets a status")
	return w
}

func (r *vResp) into(v interface{}) {
	err := json.Unmarshal(r.body, v)
	vAssert(err == nil, "the answer can be read")
}

func vDec(n uint64) string { return strconv.FormatUint(n, 10) }

func vCred(addr string, prefix byte) []byte {
	c := make([]byte, 32)
	c[0] = prefix
	copy(c[12:], common.HexToAddress(addr).Bytes())
	return c
}

func vBeaconVal(idx uint64, cred []byte, st v1.ValidatorState, bal, eb uint64) *v1.Validator {
	return &v1.Validator{Index: phase0.ValidatorIndex(idx), Status: st, Balance: phase0.Gwei(bal),
		Validator: &phase0.Validator{WithdrawalCredentials: cred, EffectiveBalance: phase0.Gwei(eb)}}
}

// vNewEnv: n tracked validators with indices 100.., any status, balances and address; all of them known to the
// beacon node, unless the parameter forget says otherwise.
func vNewEnv(n int) *vEnv {
	e := &vEnv{n: n, beacon: map[phase0.ValidatorIndex]*v1.Validator{}}
	e.cfg = &oracle.Config{Network: oracle.Mainnet, PoolAddress: vPool, DeployedSlot: 10, DeployedBlock: 5, CheckPointSizeInSlots: 7200,
		PoolFeesPercentOver10000: int(vInt("fee", 0, 10000)), PoolFeesAddress: vPoolFee, CollateralInWei: vBig("minCollateral", 96), NumRetries: 1}
	e.or = oracle.NewOracle(e.cfg)
	e.st = e.or.State()
	e.st.LatestProcessedSlot = vU64("processed")
	vAssume(e.st.LatestProcessedSlot < 1<<40)
	e.st.NextSlotToProcess = e.st.LatestProcessedSlot + 1
	e.st.LatestProcessedBlock = vU64("processedBlock")
	vAssume(e.st.LatestProcessedBlock < 1<<40)
	e.fin = vU64("finalized")
	vAssume(e.fin < 1<<40)
	e.st.PoolAccumulatedFees = vBig("poolFees", 96)
	for i := 0; i < n; i++ {
		idx := vBase + uint64(i)
		a := vAddrs[vPick("address", vParam("addrs", 1))]
		e.st.Validators[idx] = &oracle.ValidatorInfo{
			ValidatorStatus:       oracle.ValidatorStatus(vInt("status", 1, 5)),
			AccumulatedRewardsWei: vBig("acc", 96),
			PendingRewardsWei:     vBig("pend", 96),
			CollateralWei:         vBig("coll", 96),
			WithdrawalAddress:     a,
			ValidatorIndex:        idx,
			ValidatorKey:          "0xab",
			SubscriptionType:      oracle.SubscriptionType(vInt("subtype", 0, 1)),
		}
		e.beacon[phase0.ValidatorIndex(idx)] = vBeaconVal(idx, vCred(a, 1), v1.ValidatorStateActiveOngoing, vU64("balance"), uint64(vInt("eb", 1, 2048000000000)))
	}
	oc := oracle.VOnchain(1, nil, common.Address{}, vPool, oracle.MainnetChainId)
	oracle.VSetValidators(oc, e.beacon)
	e.s = NewApiService(e.cfg, &config.CliConfig{ApiPort: 7300}, e.or, oc)
	retry.VStub_Do = func(f retry.RetryableFunc, opts ...retry.Option) error { return f() }
	chttp.VStub_Service_BeaconBlockHeader = func(s *chttp.Service, ctx context.Context, o *eapi.BeaconBlockHeaderOpts) (*eapi.Response[*v1.BeaconBlockHeader], error) {
		e.headers++
		vAssert(o.Block == "finalized", "readiness is measured against the finalized head")
		if e.down {
			return nil, errNode
		}
		return &eapi.Response[*v1.BeaconBlockHeader]{Data: &v1.BeaconBlockHeader{Header: &phase0.SignedBeaconBlockHeader{Message: &phase0.BeaconBlockHeader{Slot: phase0.Slot(e.fin)}}}}, nil
	}
	return e
}

// earlier: requests on the same service when it was one slot behind and everything was different; what they were
// answered is of no use later.
func (e *vEnv) earlier(f func()) {
	if vParam("warm", 0) == 0 {
		return
	}
	st, fin, down, beacon := *e.st, e.fin, e.down, e.beacon
	vAssume(vAnd(st.LatestProcessedSlot > 1, st.LatestProcessedBlock > 1))
	e.st.LatestProcessedSlot, e.st.NextSlotToProcess, e.st.LatestProcessedBlock = st.LatestProcessedSlot-1, st.NextSlotToProcess-1, st.LatestProcessedBlock-1
	e.fin, e.down = e.st.LatestProcessedSlot, false
	e.st.PoolAccumulatedFees = big.NewInt(11)
	e.st.Validators = map[uint64]*oracle.ValidatorInfo{}
	e.st.ProposedBlocks, e.st.MissedBlocks, e.st.WrongFeeBlocks, e.st.Donations = nil, nil, nil, nil
	e.beacon = map[phase0.ValidatorIndex]*v1.Validator{}
	for i := 0; i <= e.n; i++ {
		idx := vBase + uint64(i)
		a := vAddrs[0]
		if v := st.Validators[idx]; v != nil {
			a = v.WithdrawalAddress
		}
		e.st.Validators[idx] = &oracle.ValidatorInfo{ValidatorStatus: []oracle.ValidatorStatus{oracle.Active, oracle.Banned}[vPick("earlierStatus", 2)],
			AccumulatedRewardsWei: big.NewInt(int64(7 + i)), PendingRewardsWei: big.NewInt(int64(70 + i)), CollateralWei: big.NewInt(700), WithdrawalAddress: a, ValidatorIndex: idx, ValidatorKey: "0xef"}
		e.beacon[phase0.ValidatorIndex(idx)] = vBeaconVal(idx, vCred(a, 1), v1.ValidatorStateActiveExiting, 31, 31)
	}
	oracle.VSetValidators(e.s.Onchain, e.beacon)
	f()
	committed := e.st.CommitedStates
	*e.st, e.fin, e.down, e.beacon = st, fin, down, beacon
	e.st.CommitedStates = committed
	oracle.VSetValidators(e.s.Onchain, beacon)
}

// ready: not more than 64 slots behind the finalized head.
func (e *vEnv) ready() bool {
	return vAnd(!e.down, e.fin >= e.st.LatestProcessedSlot, e.fin-e.st.LatestProcessedSlot <= 64)
}

func (e *vEnv) assumeReady() { vAssume(e.ready()) }

type vSnap struct {
	v          oracle.ValidatorInfo
	acc, pend  *big.Int
	collateral *big.Int
}

func (e *vEnv) snap() map[uint64]vSnap {
	m := map[uint64]vSnap{}
	for i, v := range e.st.Validators {
		m[i] = vSnap{*v, new(big.Int).Set(v.AccumulatedRewardsWei), new(big.Int).Set(v.PendingRewardsWei), new(big.Int).Set(v.CollateralWei)}
	}
	return m
}

// same: serving a request changed nothing.
func (e *vEnv) same(m map[uint64]vSnap) {
	vAssert(e.or.State() == e.st, "the state is not replaced by a request")
	vAssert(len(e.st.Validators) == len(m), "a request does not add or remove validators")
	for i, s := range m {
		v := e.st.Validators[i]
		vAssert(v != nil, "a request does not remove a validator")
		vAssert(vAnd(v.ValidatorStatus == s.v.ValidatorStatus, v.SubscriptionType == s.v.SubscriptionType, v.ValidatorIndex == s.v.ValidatorIndex,
			vEqStr(v.WithdrawalAddress, s.v.WithdrawalAddress), vEqStr(v.ValidatorKey, s.v.ValidatorKey)), "a request does not change a validator")
		vAssert(vAnd(vEq(v.AccumulatedRewardsWei, s.acc), vEq(v.PendingRewardsWei, s.pend), vEq(v.CollateralWei, s.collateral)), "a request does not change a balance")
	}
}

func vEq(a, b *big.Int) bool { return a.Cmp(b) == 0 }

func vSubscribed(s oracle.ValidatorStatus) bool {
	return vOr(s == oracle.Active, s == oracle.YellowCard, s == oracle.RedCard)
}
func vEarning(s oracle.ValidatorStatus) bool { return vOr(s == oracle.Active, s == oracle.YellowCard) }

func phase0Idx(i uint64) phase0.ValidatorIndex { return phase0.ValidatorIndex(i) }
