package api

import (
	"math/big"
	"net/http"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

type vBlockShown struct {
	Slot       uint64 `json:"slot"`
	Block      uint64 `json:"block"`
	Index      uint64 `json:"validator_index"`
	Key        string `json:"validator_key"`
	Type       string `json:"block_type"`
	Reward     string `json:"reward_wei"`
	RewardType string `json:"reward_type"`
	Address    string `json:"withdrawal_address"`
}

var vBlockTypes = []string{"unknownblocktype", "missedproposal", "wrongfeerecipient", "okpoolproposal", "okpoolproposalblskeys"}
var vRewardTypes = []string{"unknownrewardtype", "vanila", "mev"}

func vSameBlock(s vBlockShown, b oracle.SummarizedBlock) {
	vAssert(vAnd(s.Slot == b.Slot, s.Block == b.Block, s.Index == b.ValidatorIndex, vEqStr(s.Key, b.ValidatorKey), vEqStr(s.Address, b.WithdrawalAddress)), "block, slot and proposer")
	vAssert(vAnd(vEqStr(s.Type, vBlockTypes[int(b.BlockType)]), vEqStr(s.RewardType, vRewardTypes[int(b.RewardType)])), "kind of block and reward")
	vAssert(vEqStr(s.Reward, b.Reward.String()), "reward")
}

// vC33Blocks: the lists of blocks and donations show what is in the state, all of it and nothing else.
func vC33Blocks() {
	e := vNewEnv(0)
	for i := 0; i < vParam("each", 2); i++ {
		e.st.ProposedBlocks = append(e.st.ProposedBlocks, e.block(oracle.BlockType(3+vPick("type", 2))))
		e.st.MissedBlocks = append(e.st.MissedBlocks, e.block(oracle.MissedProposal))
		e.st.WrongFeeBlocks = append(e.st.WrongFeeBlocks, e.block(oracle.WrongFeeRecipient))
	}
	e.blocks(0, 2)
	e.earlier(func() {
		e.blocks(1, 1)
		for _, h := range []func(http.ResponseWriter, *http.Request){e.s.handleMemoryAllBlocks, e.s.handleMemoryProposedBlocks, e.s.handleMemoryMissedBlocks, e.s.handleMemoryWrongFeeBlocks, e.s.handleMemoryDonations} {
			vGet(h)
		}
	})
	var lists = [][]oracle.SummarizedBlock{e.st.ProposedBlocks, e.st.MissedBlocks, e.st.WrongFeeBlocks}
	var all []vBlockShown
	r := vGet(e.s.handleMemoryAllBlocks)
	vAssert(r.code == 200, "served")
	r.into(&all)
	vAssert(len(all) == 3*vParam("each", 2), "every block is listed once")
	k := 0
	for l, want := range lists {
		var got []vBlockShown
		var r *vResp
		switch l {
		case 0:
			r = vGet(e.s.handleMemoryProposedBlocks)
		case 1:
			r = vGet(e.s.handleMemoryMissedBlocks)
		case 2:
			r = vGet(e.s.handleMemoryWrongFeeBlocks)
		}
		vAssert(r.code == 200, "served")
		r.into(&got)
		vAssert(len(got) == len(want), "every block is listed once")
		for i := range want {
			vSameBlock(got[i], want[i])
			vSameBlock(all[k], want[i])
			k++
		}
	}
	r = vGet(e.s.handleMemoryDonations)
	vAssert(r.code == 200, "served")
	var ds []struct {
		Amount string `json:"amount_wei"`
		Block  uint64 `json:"block_number"`
		Tx     string `json:"tx_hash"`
		Sender string `json:"sender"`
	}
	r.into(&ds)
	vAssert(len(ds) == 2, "every donation is listed once")
	for i, d := range e.st.Donations {
		vAssert(vAnd(vEqStr(ds[i].Amount, d.DonationAmount.String()), ds[i].Block == d.Raw.BlockNumber, common.HexToHash(ds[i].Tx) == d.Raw.TxHash,
			common.HexToAddress(ds[i].Sender) == d.Sender), "donation")
	}
	vReach("blocks")
}

// vC33Fees: the fees and the configuration shown are those in force.
func vC33Fees() {
	e := vNewEnv(0)
	e.st.PoolFeesPercentOver10000 = int(vInt("feeNow", 0, 10000))
	e.earlier(func() {
		e.st.PoolFeesPercentOver10000 = 3
		vGet(e.s.handleMemoryFeesInfo)
	})
	r := vGet(e.s.handleMemoryFeesInfo)
	vAssert(r.code == 200, "served")
	var f struct {
		Percent int    `json:"pool_fee_percent"`
		Address string `json:"pool_fee_address"`
		Fees    string `json:"pool_accumulated_fees"`
	}
	r.into(&f)
	vAssert(vAnd(f.Percent == e.st.PoolFeesPercentOver10000, f.Address == e.st.PoolFeesAddress, vEqStr(f.Fees, e.st.PoolAccumulatedFees.String())), "fees")
	e.cfg.DryRun = vBool("dry")
	e.cfg.DeployedSlot = vU64("deployed")
	e.cfg.CheckPointSizeInSlots = vU64("size")
	r = vGet(e.s.handleConfig)
	vAssert(r.code == 200, "served")
	var c struct {
		Network  string `json:"network"`
		Pool     string `json:"pool_address"`
		Deployed uint64 `json:"deployed_slot"`
		Size     uint64 `json:"checkpoint_size"`
		Percent  int    `json:"pool_fees_percent"`
		Address  string `json:"pool_fees_address"`
		Dry      bool   `json:"dry_run"`
		Coll     string `json:"collateral_in_wei"`
	}
	r.into(&c)
	vAssert(vAnd(c.Network == e.cfg.Network, c.Pool == e.cfg.PoolAddress, c.Deployed == e.cfg.DeployedSlot, c.Size == e.cfg.CheckPointSizeInSlots,
		c.Percent == e.cfg.PoolFeesPercentOver10000, c.Address == e.cfg.PoolFeesAddress, c.Dry == e.cfg.DryRun, vEqStr(c.Coll, e.cfg.CollateralInWei.String())), "configuration")
	e.s.cfg = nil
	r = vGet(e.s.handleConfig)
	vAssert(r.code == 500, "no configuration to show")
	vReach("fees")
}

// vC33State: another oracle can start from the state that is served.
func vC33State() {
	e := vNewEnv(vParam("n", 1))
	if vPick("committed", 2) == 1 {
		vAssert(e.or.FreezeCheckpoint(), "committed")
		if vPick("later", 2) == 1 {
			e.st.LatestProcessedSlot++
		}
	}
	e.blocks(1, 1)
	e.st.Donations[0].Raw.Topics = []common.Hash{common.HexToHash("0x01")}
	e.st.Donations[0].Raw.Data = []byte{}
	e.earlier(func() { vGet(e.s.handleState) })
	// after a scheduled fee change on another network nothing is scheduled
	r := vGet(e.s.handleState)
	vAssert(r.code == 200, "served")
	o2 := oracle.NewOracle(e.cfg)
	ok, err := o2.LoadFromBytes(r.body)
	vAssert(err == nil && ok, "the state that is served can be loaded")
	vReach("loaded")
	oracle.VSameAll(e.st, o2.State(), "loaded")
	vAssert(new(big.Int).Cmp(e.st.PoolAccumulatedFees) <= 0, "fees")
}
