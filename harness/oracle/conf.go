package oracle

// What the oracle starts with: the contract, the two nodes, the deployment block and the operator's settings.

import (
	"context"
	"crypto/ecdsa"
	"errors"
	"math/big"
	"time"

	eth2client "github.com/attestantio/go-eth2-client"
	"github.com/attestantio/go-eth2-client/api"
	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/utils"
	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
)

var vSelector = []byte{0x15, 0x1e, 0x4d, 0x3d}

// vInitAbi: the two functions of the contract that matter here.
func vInitAbi() {
	bind.VStub_MetaData_GetAbi = func(m *bind.MetaData) (*abi.ABI, error) {
		return &abi.ABI{Methods: map[string]abi.Method{
			"initialize": {Name: "initialize", RawName: "initialize", ID: vSelector},
			"poolFee":    {Name: "poolFee", RawName: "poolFee", ID: []byte{9, 9, 9, 9}},
		}}, nil
	}
	// initialize(address,uint256,uint256,address,uint64,uint64)
	abi.VStub_Arguments_Unpack = func(a abi.Arguments, data []byte) ([]any, error) {
		if len(data) < 192 {
			return nil, errors.New("abi: cannot marshal in to go type: length insufficient")
		}
		small := make([]bool, 0)
		for i := 0; i < 24; i++ {
			small = append(small, data[128+i] == 0, data[160+i] == 0)
		}
		if !vForce(vAnd(small...)) {
			return nil, errors.New("abi: improperly encoded uint64 value")
		}
		w := func(i int) *big.Int { return new(big.Int).SetBytes(data[32*i : 32*i+32]) }
		return []any{common.BytesToAddress(data[12:32]), w(1), w(2), common.BytesToAddress(data[108:128]), w(4).Uint64(), w(5).Uint64()}, nil
	}
}

// vInitArgs: the encoded arguments of initialize with the given fee.
func vInitArgs(fee *big.Int) []byte {
	b := make([]byte, 192)
	b[31], b[63] = 7, 8
	fee.FillBytes(b[64:96])
	copy(b[108:128], common.FromHex(vPoolFee))
	b[158], b[191] = 5, 3
	return b
}

func vTx(to *common.Address, data []byte) *types.Transaction {
	tx, err := utils.DecodeTx(vMkTx(0, 1, to, big.NewInt(0), big.NewInt(1), nil, 0, MainnetChainId, data))
	vAssert(err == nil, "a transaction")
	return tx
}

func vExecBlock(number *big.Int, time uint64, txs ...*types.Transaction) *types.Block {
	return types.NewBlockWithHeader(&types.Header{Number: number, Time: time}).WithBody(types.Body{Transactions: txs})
}

// vC29Fee: the block with the deployment of the pool.
func vC29Fee() {
	vInitAbi()
	pool, other := common.HexToAddress(vPool), common.HexToAddress(vOther)
	var txs []*types.Transaction
	want, found := new(big.Int), false
	n := vParam("txs", 2)
	for i := 0; i < n; i++ {
		fee := new(big.Int).SetUint64(uint64(vInt("fee", 0, 10000)))
		args := append(append([]byte{}, vSelector...), vInitArgs(fee)...)
		pre := append(vBytes("code", vPick("prefix", vParam("prefix", 5))), args...)
		kind := vPick("kind", 8)
		var tx *types.Transaction
		init := false
		switch kind {
		case 0: // the initialisation of the pool
			tx, init = vTx(&pool, args), true
		case 1: // something else sent to the pool
			d := append(vBytes("call", 4), vInitArgs(fee)...)
			vAssume(vNot(vAnd(d[0] == vSelector[0], d[1] == vSelector[1], d[2] == vSelector[2], d[3] == vSelector[3])))
			tx = vTx(&pool, d)
		case 2: // another contract
			tx = vTx(&other, args)
		case 3: // a transfer, or less than a selector
			to := &pool
			if vPick("creation", 2) == 1 {
				to = nil
			}
			tx = vTx(to, vBytes("short", vPick("len", 4)))
		case 4: // the proxy, after whatever code, followed by whatever is there
			tx, init = vTx(nil, append(pre, vBytes("tail", 3)...)), true
		case 5: // a creation without the call
			tx = vTx(nil, vBytes("code", 6))
		case 6: // the implementation: the selector in the code, without arguments
			tx = vTx(nil, append(append([]byte{}, pre[:len(pre)-196]...), append(vSelector, vBytes("rest", 3)...)...))
		case 7: // the proxy after code that looks like the call but is none
			decoy := make([]byte, 192)
			decoy[128] = byte(1 + vPick("decoy", 2))
			tx, init = vTx(nil, append(append(append(append([]byte{1, 2}, vSelector...), decoy...), args...), 9)), true
		}
		txs = append(txs, tx)
		if init && !found {
			want, found = fee, true
		}
		if kind == 4 {
			// the code in front is not itself a call of initialize
			for j := 0; j+4 < len(pre)-192; j++ {
				vAssume(vNot(vAnd(pre[j] == vSelector[0], pre[j+1] == vSelector[1], pre[j+2] == vSelector[2], pre[j+3] == vSelector[3])))
			}
		}
	}
	// the pool as the operator wrote it, on a network without a published fee
	s := &vStart{failAt: -1, genesis: 100, time: 1300, deployed: 5, at: 5, size: 10, quorum: 1, collateral: big.NewInt(1),
		recipient: common.HexToAddress(vPoolFee), cons: HoleskyChainId, txs: txs}
	if k := vPick("chain", vParam("chains", 1)); k > 0 {
		s.cons = []uint64{MainnetChainId, HoodiChainId}[k-1]
	}
	s.exec = s.cons
	s.install()
	cli := &config.CliConfig{DryRun: true, PoolAddress: []string{vPool, "0xADFB8D27671F14F297EE94135E266AAFF8752E35"}[vPick("case", 2)]}
	oc := VOnchain(1, nil, common.Address{}, cli.PoolAddress, s.cons)
	var c *Config
	r := vTry(func() { c = oc.GetConfigFromContract(cli) })
	if !found {
		vReach("none")
		if s.cons == HoleskyChainId {
			vAssert(r == 2, "no fee without an initialisation")
			return
		}
		vReach("published")
		vAssert(r == 0 && c.PoolFeesPercentOver10000 == map[uint64]int{MainnetChainId: 700, HoodiChainId: 1000}[s.cons], "the published fee without an initialisation")
		return
	}
	vReach("decoded")
	vAssert(r == 0, "the initialisation is found")
	vAssert(uint64(c.PoolFeesPercentOver10000) == want.Uint64(), "the fee of the first initialisation of the pool")
}

// vStart: the answers of the nodes and the contract at the start.
type vStart struct {
	calls, failAt int
	failed        bool
	cons, exec    uint64
	genesis       uint64
	deployed      uint64
	time          uint64
	size          uint64
	quorum        uint64
	collateral    *big.Int
	recipient     common.Address
	txs           []*types.Transaction
	at            uint64 // number of the block in the slot asked for
	missed        bool
	asked         string
	syncing       bool
}

func (s *vStart) step() error {
	s.calls++
	if s.calls-1 == s.failAt {
		s.failed = true
		return errors.New("the node does not answer")
	}
	return nil
}

func (s *vStart) install() {
	retry.VStub_Do = func(f retry.RetryableFunc, opts ...retry.Option) error { return f() }
	ethclient.VStub_Client_ChainID = func(c *ethclient.Client, ctx context.Context) (*big.Int, error) {
		return new(big.Int).SetUint64(s.exec), s.step()
	}
	http.VStub_Service_DepositContract = func(h *http.Service, ctx context.Context, o *api.DepositContractOpts) (*api.Response[*v1.DepositContract], error) {
		if err := s.step(); err != nil {
			return nil, err
		}
		return &api.Response[*v1.DepositContract]{Data: &v1.DepositContract{ChainID: s.cons}}, nil
	}
	http.VStub_Service_Genesis = func(h *http.Service, ctx context.Context, o *api.GenesisOpts) (*api.Response[*v1.Genesis], error) {
		if err := s.step(); err != nil {
			return nil, err
		}
		return &api.Response[*v1.Genesis]{Data: &v1.Genesis{GenesisTime: time.Unix(int64(s.genesis), 0)}}, nil
	}
	ethclient.VStub_Client_BalanceAt = func(c *ethclient.Client, ctx context.Context, a common.Address, n *big.Int) (*big.Int, error) {
		return big.NewInt(1000), s.step()
	}
	contract.VStub_ContractCaller_DeploymentBlockNumber = func(c *contract.ContractCaller, o *bind.CallOpts) (*big.Int, error) {
		return new(big.Int).SetUint64(s.deployed), s.step()
	}
	ethclient.VStub_Client_BlockByNumber = func(c *ethclient.Client, ctx context.Context, n *big.Int) (*types.Block, error) {
		if err := s.step(); err != nil {
			return nil, err
		}
		vAssert(n != nil && vForce(n.Uint64() == s.deployed), "the block of the deployment is looked up")
		return vExecBlock(n, s.time, s.txs...), nil
	}
	ethclient.VStub_Client_HeaderByNumber = func(c *ethclient.Client, ctx context.Context, n *big.Int) (*types.Header, error) {
		if err := s.step(); err != nil {
			return nil, err
		}
		vAssert(n == nil || vForce(n.Uint64() == s.deployed), "the block of the deployment is looked up")
		return &types.Header{Number: new(big.Int).SetUint64(s.deployed), Time: s.time}, nil
	}
	http.VStub_Service_SignedBeaconBlock = func(h *http.Service, ctx context.Context, o *api.SignedBeaconBlockOpts) (*api.Response[*spec.VersionedSignedBeaconBlock], error) {
		if err := s.step(); err != nil {
			return nil, err
		}
		s.asked = o.Block
		if s.missed {
			return nil, &api.Error{Method: "GET", StatusCode: 404, Data: []byte("NOT_FOUND: beacon block")}
		}
		return &api.Response[*spec.VersionedSignedBeaconBlock]{Data: &spec.VersionedSignedBeaconBlock{
			Version: spec.DataVersionCapella,
			Capella: &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{Slot: phase0.Slot(s.slot()),
				Body: &capella.BeaconBlockBody{ExecutionPayload: &capella.ExecutionPayload{BlockNumber: s.at, FeeRecipient: bellatrix.ExecutionAddress{}}}}},
		}}, nil
	}
	contract.VStub_ContractCaller_CheckpointSlotSize = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) { return s.size, s.step() }
	contract.VStub_ContractCaller_PoolFeeRecipient = func(c *contract.ContractCaller, o *bind.CallOpts) (common.Address, error) {
		return s.recipient, s.step()
	}
	contract.VStub_ContractCaller_PoolFee = func(c *contract.ContractCaller, o *bind.CallOpts) (*big.Int, error) {
		return big.NewInt(333), s.step()
	}
	contract.VStub_ContractCaller_SubscriptionCollateral = func(c *contract.ContractCaller, o *bind.CallOpts) (*big.Int, error) {
		return s.collateral, s.step()
	}
	contract.VStub_ContractCaller_GetAllOracleMembers = func(c *contract.ContractCaller, o *bind.CallOpts) ([]common.Address, error) {
		return []common.Address{{1}}, s.step()
	}
	contract.VStub_ContractCaller_Quorum = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) { return s.quorum, s.step() }
}

func (s *vStart) slot() uint64 { return (s.time - s.genesis) / 12 }

func vNewStart() *vStart {
	s := &vStart{failAt: -1, genesis: vU64("genesis"), deployed: vU64("deployedBlock"), size: vU64("checkpoint"), quorum: 3,
		collateral: vBig("collateral", 96), recipient: common.HexToAddress(vPoolFee)}
	after := vU64("after")
	vAssume(vAnd(s.genesis < 1<<34, after < 1<<34))
	s.time = s.genesis + after
	s.at = s.deployed
	ids := []uint64{1, 5, 17000, 560048, 11155111}
	s.cons = ids[vPick("chain", len(ids))]
	s.exec = s.cons
	return s
}

// vC35Config: the configuration of the oracle.
func vC35Config() {
	vInitAbi()
	s := vNewStart()
	bad := false
	fee := uint64(vInt("fee", 0, 10000))
	pool := common.HexToAddress(vPool)
	decodable := vPick("initialized", 2) == 1
	if decodable {
		s.txs = append(s.txs, vTx(&pool, append(append([]byte{}, vSelector...), vInitArgs(new(big.Int).SetUint64(fee))...)))
	}
	switch vPick("trouble", 5) {
	case 1:
		s.exec = vU64("otherChain")
		vAssume(vAnd(s.exec != s.cons, s.exec < 1<<62))
		bad = true
	case 2:
		s.at = vU64("otherBlock")
		vAssume(s.at != s.deployed)
		bad = true
	case 3:
		s.missed, bad = true, true
	case 4:
		s.failAt = vPick("failAt", vParam("calls", 14))
	}
	s.install()
	net := map[uint64]string{1: Mainnet, 5: Goerli, 17000: Holesky, 560048: Hoodi}[s.cons]
	bad = bad || net == "" || (!decodable && s.cons != 1 && s.cons != 560048)
	cli := &config.CliConfig{DryRun: vPick("dry", 2) == 1, UpdaterKeyFile: "file", UpdaterKeyPass: "pass", NumRetries: 7,
		ConsensusEndpoint: "http://consensus", ExecutionEndpoint: "http://execution", PoolAddress: vPool}
	oc := VOnchain(1, nil, common.Address{}, vPool, s.cons)
	var c *Config
	r := vTry(func() { c = oc.GetConfigFromContract(cli) })
	if bad || s.failed {
		vReach("refused")
		vAssert(r != 0, "nothing starts with nodes that disagree, fail or are of an unknown network")
		return
	}
	vReach("started")
	vAssert(r == 0 && c != nil, "it starts when everything is consistent")
	vAssert(vEqStr(s.asked, vSlotStr(s.slot())), "the slot of the deployment is looked up")
	vAssert(c.Network == net, "the network of the nodes")
	vAssert(vAnd(c.DeployedSlot == s.slot(), c.DeployedBlock == s.deployed), "the block and slot of the deployment")
	vAssert(c.CheckPointSizeInSlots == s.size, "the checkpoints of the contract")
	vAssert(vAnd(vEqStr(c.PoolFeesAddress, common.HexToAddress(vPoolFee).Hex()), vEq(c.CollateralInWei, s.collateral)), "the fee recipient and the collateral of the contract")
	want := fee
	if !decodable {
		want = map[uint64]uint64{1: 700, 560048: 1000}[s.cons]
	}
	vAssert(uint64(c.PoolFeesPercentOver10000) == want, "the fee the pool was initialised with")
	vAssert(c.DryRun == cli.DryRun && c.PoolAddress == vPool && c.NumRetries == 7 && c.UpdaterKeyFile == "file" && c.UpdaterKeyPass == "pass" &&
		c.ConsensusEndpoint == "http://consensus" && c.ExecutionEndpoint == "http://execution", "the settings of the operator")
	// the oracle that is built from it starts at the deployment
	st := NewOracle(c).State()
	vAssert(vAnd(st.NextSlotToProcess == s.slot(), st.DeployedSlot == s.slot(), uint64(st.PoolFeesPercentOver10000) == want), "the oracle starts at the deployment")
}

// vC35Slot: the slot of a block.
func vC35Slot() {
	s := vNewStart()
	bad := false
	switch vPick("trouble", 4) {
	case 1:
		s.at = vU64("otherBlock")
		vAssume(s.at != s.deployed)
		bad = true
	case 2:
		s.missed, bad = true, true
	case 3:
		s.failAt = vPick("failAt", 3)
	}
	s.install()
	var slot uint64
	var err error
	r := vTry(func() {
		slot, err = VOnchain(1, nil, common.Address{}, vPool, s.cons).GetSlotByBlock(new(big.Int).SetUint64(s.deployed), s.genesis)
	})
	vAssert(r == 0, "it does not stop the process")
	if bad || s.failed {
		vReach("refused")
		vAssert(err != nil, "no slot when the two chains disagree or a node fails")
		return
	}
	vReach("found")
	vAssert(vEqStr(s.asked, vSlotStr(s.slot())), "asked")
	vAssert(err == nil && vForce(slot == s.slot()), "the slot in which the block was proposed")
}

// vC35Connect: the connections to the two nodes.
func vC35Connect() {
	s := vNewStart()
	s.cons = vU64("consensusChain")
	s.exec = vU64("executionChain")
	vAssume(vAnd(s.cons < 1<<62, s.exec < 1<<62))
	if vPick("fault", 2) == 1 {
		s.failAt = vPick("failAt", 8)
	}
	s.install()
	ethclient.VStub_Dial = func(u string) (*ethclient.Client, error) {
		vAssert(u == "http://execution", "the execution client of the operator")
		return &ethclient.Client{}, s.step()
	}
	http.VStub_New = func(ctx context.Context, params ...http.Parameter) (eth2client.Service, error) {
		if err := s.step(); err != nil {
			return nil, err
		}
		return &http.Service{}, nil
	}
	behind := vPick("behind", 2) == 1
	ethclient.VStub_Client_SyncProgress = func(c *ethclient.Client, ctx context.Context) (*ethereum.SyncProgress, error) {
		if err := s.step(); err != nil || !behind {
			return nil, err
		}
		return &ethereum.SyncProgress{CurrentBlock: 3, HighestBlock: 9}, nil
	}
	ethclient.VStub_Client_HeaderByNumber = func(c *ethclient.Client, ctx context.Context, n *big.Int) (*types.Header, error) {
		return &types.Header{Number: big.NewInt(4)}, s.step()
	}
	http.VStub_Service_NodeSyncing = func(h *http.Service, ctx context.Context, o *api.NodeSyncingOpts) (*api.Response[*v1.SyncState], error) {
		if err := s.step(); err != nil {
			return nil, err
		}
		return &api.Response[*v1.SyncState]{Data: &v1.SyncState{SyncDistance: phase0.Slot(vU64("distance"))}}, nil
	}
	contract.VStub_NewContract = func(a common.Address, b bind.ContractBackend) (*contract.Contract, error) {
		vAssert(a == common.HexToAddress(vPool), "the contract of the pool")
		return &contract.Contract{}, s.step()
	}
	crypto.VStub_PubkeyToAddress = func(k ecdsa.PublicKey) common.Address { return common.HexToAddress(vKeyAddr1) }
	var key *ecdsa.PrivateKey
	if vPick("key", 2) == 1 {
		key = &ecdsa.PrivateKey{}
	}
	cli := &config.CliConfig{NumRetries: 7, ConsensusEndpoint: "http://consensus", ExecutionEndpoint: "http://execution", PoolAddress: vPool}
	var oc *Onchain
	var err error
	r := vTry(func() { oc, err = NewOnchain(cli, key) })
	if s.failed || vForce(s.cons != s.exec) {
		vReach("refused")
		vAssert(r != 0 || err != nil, "no connection to nodes that fail or are of different chains")
		return
	}
	vReach("connected")
	vAssert(r == 0 && err == nil, "it connects to nodes of the same chain")
	vAssert(oc.ChainId == s.cons, "the chain of the nodes")
	vAssert(oc.PoolAddress == vPool && oc.NumRetries == 7 && oc.Contract != nil && oc.ConsensusClient != nil && oc.ExecutionClient != nil, "the settings of the operator")
	vAssert(oc.updaterKey == key && (key == nil || oc.UpdaterAddress == common.HexToAddress(vKeyAddr1)), "the key of the operator")
}
