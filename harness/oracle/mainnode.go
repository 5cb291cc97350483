package oracle

// For the harnesses of other packages.

import (
	"crypto/ecdsa"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/http"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethclient"
)

func VOnchain(attempts int, key *ecdsa.PrivateKey, updater common.Address, pool string, chain uint64) *Onchain {
	return &Onchain{
		ConsensusClient: &http.Service{}, ExecutionClient: &ethclient.Client{}, Contract: &contract.Contract{},
		NumRetries: attempts, updaterKey: key, UpdaterAddress: updater, PoolAddress: pool, ChainId: chain,
	}
}

// VSetValidators: the validators known at the last refresh.
func VSetValidators(o *Onchain, v map[phase0.ValidatorIndex]*v1.Validator) { o.validators = v }
