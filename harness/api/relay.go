package api

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"

	"github.com/dappnode/mev-sp-oracle/config"
)

var vHTTP func(url string) (*http.Response, error)

func vHTTPGet(url string) (*http.Response, error) { return vHTTP(url) }

type vReg struct {
	Message *vRegMsg `json:"message"`
	Sig     string   `json:"signature"`
}
type vRegMsg struct {
	Fee    string `json:"fee_recipient"`
	Gas    string `json:"gas_limit"`
	Time   string `json:"timestamp"`
	Pubkey string `json:"pubkey"`
}

type vRelay struct {
	Relay string `json:"relay_address"`
	Fee   string `json:"fee_recipient"`
}

const vSig = "0x000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"
const vPubkey = "0x000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"

// vC33Relays: a validator is registered correctly if all the relays that know it pay the pool, and some do.
func vC33Relays() {
	e := vNewEnv(0)
	n := vParam("relays", 2)
	names := []string{"http://one", "http://two", "http://three"}
	e.s.cliCfg = &config.CliConfig{RelayersEndpoints: names[:n]}
	kinds := map[string]int{}
	broken := false
	good, bad, unknown := 0, 0, 0
	for i := 0; i < n; i++ {
		k := vPick("relay", 6)
		kinds[names[i]+"/relay/v1/data/validator_registration?pubkey="+vPubkey] = k
		switch k {
		case 0, 1:
			good++
		case 2:
			bad++
		case 3:
			unknown++
		default:
			broken = true
		}
	}
	asked, warm := 0, false
	vHTTP = func(url string) (*http.Response, error) {
		k, ok := kinds[url]
		if warm {
			k = []int{2, 0}[asked%2]
		}
		vAssert(ok, "the relays are asked for the validator")
		asked++
		fee := vPool
		switch k {
		case 1:
			fee = "0xAdFb8D27671F14f297eE94135e266aAFf8752e35"
		case 2:
			fee = vAddrs[0]
		case 3:
			return &http.Response{StatusCode: 404, Body: io.NopCloser(bytes.NewReader([]byte("{}")))}, nil
		case 4:
			return nil, errNode
		case 5:
			return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader([]byte("{}")))}, nil
		}
		b, _ := json.Marshal(&vReg{&vRegMsg{fee, "30000000", "1700000000", vPubkey}, vSig})
		return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(b))}, nil
	}
	e.earlier(func() {
		warm = true
		vGet(e.s.handleValidatorRelayers, "valpubkey", vPubkey)
		warm, asked = false, 0
	})
	r := vGet(e.s.handleValidatorRelayers, "valpubkey", vPubkey)
	if broken {
		vReach("broken")
		vAssert(r.code == 500, "a relay that does not answer leaves the question open")
		return
	}
	vReach("relays")
	vAssert(r.code == 200 && asked == n, "every relay is asked")
	var got struct {
		Ok      bool     `json:"correct_fee_recipients"`
		Good    []vRelay `json:"correct_fee_relayers"`
		Bad     []vRelay `json:"wrong_fee_relayers"`
		Unknown []vRelay `json:"unregistered_relayers"`
	}
	r.into(&got)
	vAssert(got.Ok == (good > 0 && bad == 0), "registered correctly if all the relays that know the validator pay the pool, and some do")
	vAssert(len(got.Good) == good && len(got.Bad) == bad && len(got.Unknown) == unknown, "relays by kind")
}

func vC33Key() {
	e := vNewEnv(0)
	e.s.cliCfg = &config.CliConfig{RelayersEndpoints: []string{"http://one"}}
	vHTTP = func(url string) (*http.Response, error) {
		vAssert(false, "no relay is asked for a text that is no public key")
		return nil, errNode
	}
	r := vGet(e.s.handleValidatorRelayers, "valpubkey", []string{"", "0x00", vPubkey + "00", vPubkey[:97] + "_", "0X" + vPubkey[2:]}[vPick("key", 5)])
	vReach("key")
	vAssert(r.code >= 400, "a text that is no public key is refused")
}
