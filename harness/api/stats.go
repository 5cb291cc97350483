package api

import (
	"math/big"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

type vStats struct {
	Subscribed    uint64 `json:"total_subscribed_validators"`
	Active        uint64 `json:"total_active_validators"`
	Yellow        uint64 `json:"total_yellowcard_validators"`
	Red           uint64 `json:"total_redcard_validators"`
	Banned        uint64 `json:"total_banned_validators"`
	NotSubscribed uint64 `json:"total_notsubscribed_validators"`
	Acc           string `json:"total_accumulated_rewards_wei"`
	Pend          string `json:"total_pending_rewards_wei"`
	Sent          string `json:"total_rewards_sent_wei"`
	Sent30        string `json:"total_rewards_sent_30days_wei"`
	Per30         string `json:"rewards_per_validator_per_30days_wei"`
	Donations     string `json:"total_donations_wei"`
	Avg           string `json:"avg_block_reward_wei"`
	Proposed      uint64 `json:"total_proposed_blocks"`
	Missed        uint64 `json:"total_missed_blocks"`
	Wrong         uint64 `json:"total_wrongfee_blocks"`
	EB            string `json:"total_effective_balance_gwei"`
	AvgEB         string `json:"avg_effective_balance_gwei"`
}

func (e *vEnv) block(typ oracle.BlockType) oracle.SummarizedBlock {
	return oracle.SummarizedBlock{Slot: vU64("slot"), Block: vU64("block"), ValidatorIndex: vU64("validator"), ValidatorKey: "0xcd", BlockType: typ,
		Reward: vBig("reward", 96), RewardType: oracle.RewardType(vPick("rewardType", vParam("types", 1))), WithdrawalAddress: vAddrs[2]}
}

// blocks fills the lists of blocks and donations.
func (e *vEnv) blocks(proposed, donations int) {
	for i := 0; i < proposed; i++ {
		b := e.block(oracle.OkPoolProposal)
		if vPick("bls", 2) == 1 {
			b.BlockType = oracle.OkPoolProposalBlsKeys
		}
		e.st.ProposedBlocks = append(e.st.ProposedBlocks, b)
	}
	for i := 0; i < donations; i++ {
		e.st.Donations = append(e.st.Donations, &contract.ContractEtherReceived{Sender: common.HexToAddress(vAddrs[1]), DonationAmount: vBig("donation", 96),
			Raw: types.Log{BlockNumber: vU64("donationBlock"), TxHash: common.HexToHash("0x77")}})
	}
}

// vC24Stats: the pool's statistics, for any state.
func vC24Stats() {
	e := vNewEnv(vParam("n", 2))
	e.blocks(vParam("blocks", 2), vParam("donations", 1))
	for i := 0; i < 1; i++ {
		e.st.MissedBlocks = append(e.st.MissedBlocks, e.block(oracle.MissedProposal))
	}
	for i := 0; i < 2; i++ {
		e.st.WrongFeeBlocks = append(e.st.WrongFeeBlocks, e.block(oracle.WrongFeeRecipient))
	}
	const month = 216000
	vAssume(vAnd(e.st.LatestProcessedSlot >= month, e.st.LatestProcessedBlock >= month))
	e.earlier(func() { vGet(e.s.handleMemoryStatistics) })
	before := e.snap()
	r := vGet(e.s.handleMemoryStatistics)
	e.same(before)
	if !vForce(e.ready()) {
		vReach("syncing")
		vAssert(r.code == 503, "no statistics while the oracle is syncing")
		return
	}
	vReach("stats")
	vAssert(r.code == 200, "the statistics are served")
	var s vStats
	r.into(&s)
	var count [6]int
	acc, pend, eb := new(big.Int), new(big.Int), new(big.Int)
	for i, v := range e.st.Validators {
		for st := 1; st <= 5; st++ {
			count[st] += vB2I(v.ValidatorStatus == oracle.ValidatorStatus(st))
		}
		acc.Add(acc, v.AccumulatedRewardsWei)
		pend.Add(pend, v.PendingRewardsWei)
		bal := new(big.Int).SetUint64(uint64(e.beacon[phase0Idx(i)].Validator.EffectiveBalance))
		eb.Add(eb, vIteBig(vSubscribed(v.ValidatorStatus), bal, new(big.Int)))
	}
	sent, sent30, don := new(big.Int), new(big.Int), new(big.Int)
	ok := int64(0)
	for _, b := range e.st.ProposedBlocks {
		if b.BlockType == oracle.OkPoolProposal {
			ok++
			sent.Add(sent, b.Reward)
			sent30.Add(sent30, vIteBig(b.Slot > e.st.LatestProcessedSlot-month, b.Reward, new(big.Int)))
		}
	}
	for _, d := range e.st.Donations {
		sent.Add(sent, d.DonationAmount)
		don.Add(don, d.DonationAmount)
		sent30.Add(sent30, vIteBig(d.Raw.BlockNumber > e.st.LatestProcessedBlock-month, d.DonationAmount, new(big.Int)))
	}
	subscribed := count[1] + count[2] + count[3]
	vAssert(vAnd(s.Active == uint64(count[1]), s.Yellow == uint64(count[2]), s.Red == uint64(count[3]), s.NotSubscribed == uint64(count[4]), s.Banned == uint64(count[5])), "validators by status")
	vAssert(s.Subscribed == uint64(subscribed), "subscribed validators")
	vAssert(vEqStr(s.Acc, acc.String()), "accumulated rewards of all validators")
	vAssert(vEqStr(s.Pend, pend.String()), "pending rewards of all validators")
	vAssert(vEqStr(s.Sent, sent.String()), "rewards and donations shared so far")
	vAssert(vEqStr(s.Sent30, sent30.String()), "rewards and donations of the last 30 days")
	vAssert(vEqStr(s.Donations, don.String()), "donations")
	vAssert(vAnd(s.Proposed == uint64(len(e.st.ProposedBlocks)), s.Missed == uint64(len(e.st.MissedBlocks)), s.Wrong == uint64(len(e.st.WrongFeeBlocks))), "blocks by kind")
	avg := new(big.Int)
	if ok > 0 {
		avg.Div(sent, big.NewInt(ok))
	}
	vAssert(vEqStr(s.Avg, avg.String()), "average reward of a block")
	vAssert(vEqStr(s.EB, eb.String()), "effective balance of the subscribed validators")
	for k := 0; k <= e.n; k++ {
		p, a := new(big.Int), new(big.Int)
		if k > 0 {
			p.Div(sent30, big.NewInt(int64(k)))
			a.Div(eb, big.NewInt(int64(k)))
		}
		vAssert(vImplies(count[1]+count[2] == k, vEqStr(s.Per30, p.String())), "rewards of the last 30 days per earning validator")
		vAssert(vImplies(subscribed == k, vEqStr(s.AvgEB, a.String())), "average effective balance")
	}
	vObs("sent", sent)
}
