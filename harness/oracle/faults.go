package oracle

// File operations that fail, and what is left locked when something fails.

import (
	"errors"
	"math/big"
	"os"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

// The vFaultAt-th file operation of the code under test fails: a folder, file or name that cannot be made, or a write
// (of a file that is then empty). -1: none.
var vFaultAt = -1
var vFaultOps int
var vFaulted bool
var errDisk = errors.New("the disk does not work")

func vFault() bool {
	vFaultOps++
	if vFaultOps-1 == vFaultAt {
		vFaulted = true
		return true
	}
	return false
}

func vMkdirAll(p string, m os.FileMode) error {
	if vFault() {
		return errDisk
	}
	return os.MkdirAll(p, m)
}

func vOpened(f *os.File, err error) (*os.File, error) {
	if err == nil && vFault() { // nothing can be written to it
		n := f.Name()
		f.Close()
		return os.Open(n)
	}
	return f, err
}

func vOpenFile(p string, flags int, m os.FileMode) (*os.File, error) {
	if flags&(os.O_WRONLY|os.O_RDWR) == 0 {
		return os.OpenFile(p, flags, m)
	}
	if vFault() {
		return nil, errDisk
	}
	return vOpened(os.OpenFile(p, flags, m))
}

func vCreate(p string) (*os.File, error) {
	if vFault() {
		return nil, errDisk
	}
	return vOpened(os.Create(p))
}

func vCreateTemp(dir, pattern string) (*os.File, error) {
	if vFault() {
		return nil, errDisk
	}
	return vOpened(os.CreateTemp(dir, pattern))
}

func vWriteFile(p string, b []byte, m os.FileMode) error {
	if vFault() {
		return errDisk
	}
	if vFault() {
		os.WriteFile(p, []byte{}, m)
		return errDisk
	}
	return os.WriteFile(p, b, m)
}

func vRename(a, b string) error {
	if vFault() {
		return errDisk
	}
	return os.Rename(a, b)
}

// vC15Faults: any one file operation of a save fails.
func vC15Faults() {
	vFsClear()
	e := vNewEnv(1, 0)
	vAssume(e.slot < 14082460)
	st := e.or.State()
	st.CommitedStates = map[uint64]*OnchainState{}
	c := *e.cfg
	vFaultAt = -1
	had := vPick("had", 2) == 1
	if had {
		vAssert(e.or.SaveToJson(true) == nil, "first save succeeds")
	}
	oldSlot, oldFees := st.LatestProcessedSlot, new(big.Int).Set(st.PoolAccumulatedFees)
	st.LatestProcessedSlot += uint64(vInt("steps", 1, 10000))
	st.NextSlotToProcess = st.LatestProcessedSlot + 1
	st.PoolAccumulatedFees = vBig("newFees", 96)
	saveSlot := vPick("saveSlot", 2) == 1
	vFaultAt, vFaultOps, vFaulted = vPick("fault", 10), 0, false
	err := e.or.SaveToJson(saveSlot)
	vFaultAt = -1
	failed := vFaulted
	vAssert(vIff(err == nil, !failed), "a failed save is reported, and only then")
	vAssert(!vHang(func() { e.or.State() }), "a failed save leaves nothing locked")
	f := NewOracle(&c)
	found, err := f.LoadFromJson()
	vAssert(err == nil, "a failed save leaves a loadable state")
	vAssert(vOr(vNot(had), found), "a saved state is never lost")
	if found {
		isNew := vAnd(f.State().LatestProcessedSlot == st.LatestProcessedSlot, vEq(f.State().PoolAccumulatedFees, st.PoolAccumulatedFees))
		isOld := vAnd(had, f.State().LatestProcessedSlot == oldSlot, vEq(f.State().PoolAccumulatedFees, oldFees))
		vAssert(vOr(isNew, isOld), "either the old or the new state, complete")
		vAssert(vOr(failed, isNew), "a save that succeeds is loaded")
	} else {
		vAssert(failed, "a save that succeeds is loaded")
	}
	g := NewOracle(&c)
	found, err = g.LoadGivenState(st.LatestProcessedSlot)
	vAssert(err == nil, "a failed save leaves a loadable checkpoint copy")
	if found {
		vAssert(vOr(g.State().LatestProcessedSlot == st.LatestProcessedSlot, vAnd(had, g.State().LatestProcessedSlot == oldSlot)), "checkpoint copy complete")
	}
	if failed {
		// the disk works again
		vReach("failed")
		vAssert(e.or.SaveToJson(saveSlot) == nil, "the next save succeeds")
		h := NewOracle(&c)
		found, err = h.LoadFromJson()
		vAssert(err == nil && found, "and is found")
		vAssert(vAnd(h.State().LatestProcessedSlot == st.LatestProcessedSlot, vEq(h.State().PoolAccumulatedFees, st.PoolAccumulatedFees)), "and is complete")
	} else {
		vReach("saved")
	}
}

// vC17Locks: whatever fails, nothing stays locked.
func vC17Locks() {
	vFsClear()
	e := vNewEnv(1, 0)
	st := e.or.State()
	what := vPick("what", 12)
	var f func()
	switch what {
	case 0: // a slot that is not the next one
		fb := VSlotBlock(e.or, 0, 0, 1)
		fb.ConsensusDuty.Slot++
		f = func() { e.or.AdvanceStateToNextSlot(fb) }
	case 1: // a state out of step
		fb := VSlotBlock(e.or, 0, 0, 1)
		st.NextSlotToProcess = vU64("next")
		f = func() { e.or.AdvanceStateToNextSlot(fb) }
	case 2: // a change of the configuration nobody expects
		vAssume(e.slot%1200 != 0)
		raw := types.Log{BlockNumber: 7, Topics: []common.Hash{}, Data: []byte{}}
		fb := VSlotBlock(e.or, 0, 0, 1)
		switch vPick("change", 5) {
		case 0:
			fb.Events.UpdatePoolFee = append(fb.Events.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: vBig("fee", 16), Raw: raw})
		case 1:
			fb.Events.CheckpointSlotSize = append(fb.Events.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: vU64("size"), Raw: raw})
		case 2:
			fb.Events.UpdateSubscriptionCollateral = append(fb.Events.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: vBig("collateral", 96), Raw: raw})
		case 3:
			fb.Events.PoolFeeRecipient = append(fb.Events.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: common.HexToAddress(vThAddr), Raw: raw})
		case 4:
			ev := &contract.ContractUpdatePoolFee{NewPoolFee: big.NewInt(700), Raw: raw}
			fb.Events.UpdatePoolFee = append(fb.Events.UpdatePoolFee, ev, ev)
		}
		f = func() { e.or.AdvanceStateToNextSlot(fb) }
	case 3: // a cleanup that cannot ask the beacon node
		vAssume(e.slot%1200 == 0)
		ok := vPick("validators", 3)
		e.or.SetGetSetOfValidatorsFunc(func(ix []phase0.ValidatorIndex, slot string, opts ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
			if ok == 0 {
				return nil, errDisk
			}
			out := map[phase0.ValidatorIndex]*v1.Validator{}
			for _, i := range ix {
				out[i] = vThVal(uint64(i), v1.ValidatorStateActiveOngoing)
			}
			if ok == 1 {
				out = map[phase0.ValidatorIndex]*v1.Validator{}
			}
			return out, nil
		})
		e.or.GetPendingConsolidationsFunc(func(stateID string, opts ...retry.Option) (*PendingConsolidationsResponse, error) {
			return nil, errDisk
		})
		fb := VSlotBlock(e.or, 0, 0, 1)
		f = func() { e.or.AdvanceStateToNextSlot(fb) }
	case 4:
		st.LatestProcessedSlot = vU64("latest")
		f = func() { e.or.IsCheckpoint() }
	case 5: // a save
		vFaultAt, vFaultOps = vPick("fault", 10), 0
		f = func() { e.or.SaveToJson(true) }
	case 6: // a file that cannot be used, or is missing
		p := "state.json"
		if k := vPick("file", 3); k > 0 {
			os.WriteFile(p, []byte([]string{"{}", "nonsense"}[k-1]), 0644)
		}
		f = func() { e.or.LoadFromPath(p) }
	case 7:
		f = func() { e.or.LoadGivenState(1 << 30) }
	case 8: // the hash cannot be computed
		st.PoolAccumulatedFees = nil
		f = func() { e.or.StateWithHash(); e.or.Snapshot() }
	case 9: // nobody to pay
		st.Validators = map[uint64]*ValidatorInfo{}
		f = func() { e.or.FreezeCheckpoint(); e.or.LatestCommitedState(); e.or.LatestCommitedSlot() }
	case 10:
		f = func() {
			e.or.IsOracleInSyncWithChain(vStr("root", 66), vU64("chainSlot"))
			e.or.GetUniqueWithdrawalAddresses()
		}
	case 11: // the books do not balance
		f = func() {
			e.or.RunOffchainReconciliation()
			e.or.RunOnchainReconciliation(vBig("balance", 96), map[string]*big.Int{vThAddr: big.NewInt(0)})
		}
	}
	code := vTry(f)
	vFaultAt = -1
	vReach("done")
	if code != 2 { // else the process is gone
		vAssert(!vHang(func() { e.or.StateWithHash() }), "something stays locked")
	}
}
