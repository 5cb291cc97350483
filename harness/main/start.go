package main

// The start of the oracle: key, nodes, state, and what it does when it is told to stop.

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"net/http"
	"os"
	"syscall"
	"time"

	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/api"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/metrics"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/dappnode/mev-sp-oracle/utils"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethclient"
)

const (
	vSize    = uint64(100)
	vPool    = "0xadfb8d27671f14f297ee94135e266aaff8752e35"
	vPoolFee = "0x00000000000000000000000000000000000000fe"
	vAddr    = "0x00000000000000000000000000000000000000a0"
	vUpdater = "0x7e5f4552091a69125d5dfcb7b8c2659029395bdf"
)

type vBoot struct {
	calls, failAt int
	failed        bool
	dry           bool
	cfg           *oracle.Config
	members       []common.Address
	balance       *big.Int
	onchain       uint64
	running       *oracle.Oracle
	served        bool
	sig           os.Signal
	got           int
}

var vBootNow *vBoot

func (b *vBoot) step() error {
	b.calls++
	if b.calls-1 == b.failAt {
		b.failed = true
		return errors.New("failed")
	}
	return nil
}

func vStartCfg(dry bool) *oracle.Config {
	return &oracle.Config{Network: oracle.Hoodi, PoolAddress: vPool, DeployedSlot: 1000, DeployedBlock: 5, CheckPointSizeInSlots: vSize,
		PoolFeesPercentOver10000: 700, PoolFeesAddress: vPoolFee, CollateralInWei: big.NewInt(1), DryRun: dry, NumRetries: 1}
}

// vStateAt: an oracle that has committed the given checkpoints.
func vStateAt(fees *big.Int, slots ...uint64) *oracle.Oracle {
	or := oracle.NewOracle(vStartCfg(false))
	st := or.State()
	st.Validators[100] = &oracle.ValidatorInfo{ValidatorStatus: oracle.Active, AccumulatedRewardsWei: big.NewInt(1000), PendingRewardsWei: big.NewInt(5),
		CollateralWei: big.NewInt(1), WithdrawalAddress: vAddr, ValidatorIndex: 100, ValidatorKey: "0xab"}
	st.PoolAccumulatedFees = fees
	for _, s := range slots {
		st.LatestProcessedSlot, st.NextSlotToProcess = s, s+1
		vAssert(or.FreezeCheckpoint(), "checkpoint")
	}
	return or
}

// what the provider of the checkpoint answers
var vProvider func(url string) (*http.Response, error)

func vHTTPGet(url string) (*http.Response, error) { return vProvider(url) }

func vNotify(c chan<- os.Signal, sig ...os.Signal) {
	b := vBootNow
	for _, s := range sig {
		if s == b.sig {
			b.got++
			s := s
			go func() {
				// not before everything runs
				for i := 0; i < 500 && (b.running == nil || !b.served); i++ {
					time.Sleep(time.Millisecond)
				}
				c <- s
			}()
			return
		}
	}
	vAssert(false, "the signals that stop a process are handled")
}

func (b *vBoot) install() {
	vBootNow = b
	retry.VStub_Do = func(f retry.RetryableFunc, opts ...retry.Option) error { return f() }
	utils.VStub_DecryptKey = func(c *config.CliConfig) (*keystore.Key, error) {
		if err := b.step(); err != nil {
			return nil, err
		}
		return &keystore.Key{Address: common.HexToAddress(vUpdater), PrivateKey: &ecdsa.PrivateKey{}}, nil
	}
	oracle.VStub_NewOnchain = func(c *config.CliConfig, key *ecdsa.PrivateKey) (*oracle.Onchain, error) {
		if err := b.step(); err != nil {
			return nil, err
		}
		vAssert((key == nil) == b.dry, "the key is used exactly when the contract is to be updated")
		return oracle.VOnchain(1, key, common.HexToAddress(vUpdater), vPool, oracle.HoodiChainId), nil
	}
	oracle.VStub_Onchain_GetConfigFromContract = func(o *oracle.Onchain, c *config.CliConfig) *oracle.Config { return b.cfg }
	contract.VStub_ContractCaller_GetAllOracleMembers = func(c *contract.ContractCaller, o *bind.CallOpts) ([]common.Address, error) {
		return b.members, b.step()
	}
	ethclient.VStub_Client_BalanceAt = func(c *ethclient.Client, ctx context.Context, a common.Address, n *big.Int) (*big.Int, error) {
		vAssert(a == common.HexToAddress(vUpdater), "the balance of the updater")
		return b.balance, b.step()
	}
	contract.VStub_ContractCaller_LastConsolidatedSlot = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
		return b.onchain, b.step()
	}
	contract.VStub_ContractCaller_RewardsRoot = func(c *contract.ContractCaller, o *bind.CallOpts) ([32]byte, error) {
		return [32]byte{}, b.step()
	}
	metrics.VStub_RunMetrics = func(port int) {}
	api.VStub_ApiService_StartHTTPServer = func(a *api.ApiService) { b.served = true }
	VStub_mainLoop = func(or *oracle.Oracle, oc *oracle.Onchain, c *oracle.Config) {
		b.running = or
		vAssert(c == b.cfg, "the configuration of the contract")
	}
}

// vC36Start: any start, from any combination of saved states.
func vC36Start() {
	vFsClear()
	b := &vBoot{failAt: -1, dry: vPick("dry", 2) == 1, balance: vBig("balance", 96), sig: []os.Signal{syscall.SIGINT, syscall.SIGTERM}[vPick("signal", 2)]}
	b.cfg = vStartCfg(b.dry)
	fees := vBig("fees", 96)
	// the states on the disk: of the checkpoints, and the latest one
	first, second := uint64(1000)+vSize, uint64(1000)+2*vSize
	old := vPick("saved", 3) // nothing, the first checkpoint, both
	if old >= 1 {
		vAssert(vStateAt(fees, first).SaveToJson(true) == nil, "saved")
	}
	if old >= 2 {
		vAssert(vStateAt(fees, first, second).SaveToJson(vPick("given", 2) == 1) == nil, "saved")
	}
	latest := []uint64{0, first, second}[old]
	broken := false
	if old >= 1 && vPick("broken", vParam("broken", 2)) == 1 {
		broken = true
		raw, err := os.ReadFile(oracle.StateFolder + "/" + oracle.StateJsonName)
		vAssert(err == nil, "saved")
		var st oracle.OracleState
		vAssert(json.Unmarshal(raw, &st) == nil, "saved")
		st.PoolAccumulatedFees = new(big.Int).Add(fees, big.NewInt(1))
		raw, _ = json.Marshal(&st)
		vAssert(os.WriteFile(oracle.StateFolder+"/"+oracle.StateJsonName, raw, 0644) == nil, "saved")
	}
	// the contract
	b.onchain = vU64("onchain")
	vAssume(b.onchain < 1<<40)
	b.members = []common.Address{{1}, common.HexToAddress(vUpdater)}
	white := true
	if vPick("whitelisted", 2) == 1 {
		white = false
		b.members = b.members[:1]
	}
	// the provider of a checkpoint
	cli := &config.CliConfig{DryRun: b.dry, LogLevel: "info", PoolAddress: vPool, RelayersEndpoints: []string{"https://relay"}}
	given := vPick("provider", vParam("providers", 5))
	third := uint64(1000) + 3*vSize
	vProvider = func(url string) (*http.Response, error) {
		vAssert(given != 0 && url == "http://provider/state", "the given provider is asked")
		r := &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader([]byte("{}")))}
		switch given {
		case 1:
			st, err := vStateAt(new(big.Int).Add(fees, big.NewInt(3)), third).StateWithHash()
			vAssert(err == nil, "a state")
			raw, err := json.Marshal(st)
			vAssert(err == nil, "a state")
			r.Body = io.NopCloser(bytes.NewReader(raw))
		case 2:
			return nil, errors.New("no connection")
		case 3:
			st, _ := vStateAt(fees, third).StateWithHash()
			raw, _ := json.Marshal(st)
			r.Body = io.NopCloser(bytes.NewReader(raw))
			code := vInt("code", 100, 599)
			vAssume(vOr(code < 200, code >= 300))
			r.StatusCode = int(code)
		}
		return r, nil
	}
	if given != 0 {
		cli.CheckPointSyncUrl = "http://provider/state"
		latest = third
	}
	if vPick("fails", vParam("fails", 1)) == 1 {
		b.failAt = vPick("failAt", 6)
	}
	config.VStub_NewCliConfig = func() (*config.CliConfig, error) { return cli, nil }
	b.install()
	r := vTry(main)
	or := b.running
	if or == nil {
		vReach("stopped")
		vAssert(r != 0, "it stops when it cannot run")
	}
	beyond := !b.dry && vForce(latest > b.onchain)
	switch {
	case b.failed, given >= 2, given == 0 && broken, !b.dry && (!white || vForce(b.balance.Sign() == 0)):
		vAssert(or == nil && !b.served, "nothing runs without a key, the contract, or a sound state")
		return
	case !beyond:
		vReach("continues")
		vAssert(or != nil, "it continues from the latest state")
		vAssert(r == 0, "it runs until it is told to stop")
		if latest == 0 {
			vAssert(or.State().NextSlotToProcess == 1000, "it starts at the deployment")
		} else {
			vAssert(or.State().LatestProcessedSlot == latest, "it continues from the latest state")
		}
	case or != nil:
		vReach("goes back")
		s := or.State().LatestProcessedSlot
		vAssert(s <= b.onchain && (s == first || s == second) && s+2*vSize >= b.onchain, "it goes back to a state that is on the contract")
		c, _ := or.LatestCommitedSlot()
		vAssert(c <= b.onchain, "nothing is committed beyond the contract")
	default:
		// there was none to go back to
		k := old >= 1 && vForce(vOr(b.onchain == first, b.onchain == first+vSize, b.onchain == first+2*vSize))
		vAssert(!k, "it goes back to the state of the contract if it is there")
		return
	}
	vAssert(or != nil && b.served && b.got == 1, "it serves, and waits for a signal")
	// the next start finds what was there
	next := oracle.NewOracle(b.cfg)
	found, err := next.LoadFromJson()
	vAssert(found && err == nil, "the state is saved when it is told to stop")
	x, y := or.State(), next.State()
	vAssert(vAnd(x.LatestProcessedSlot == y.LatestProcessedSlot, x.NextSlotToProcess == y.NextSlotToProcess, x.PoolAccumulatedFees.Cmp(y.PoolAccumulatedFees) == 0), "what is saved is the state it had")
	hx, err1 := or.StateWithHash()
	hy, err2 := next.StateWithHash()
	vAssert(err1 == nil && err2 == nil && vForce(vEqStr(hx.StateHash, hy.StateHash)), "what is saved is the state it had, to the hash")
	vAssert(len(x.CommitedStates) == len(y.CommitedStates) && len(x.Validators) == len(y.Validators), "what is saved is the state it had")
}
