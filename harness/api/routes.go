package api

import (
	"context"
	"math/big"
	"net/http"
	"net/url"
	"strings"

	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/gorilla/mux"
)

// a stand-in of the router: routes are tried in the order they were added, a segment in braces matches any text.
type vRoute struct {
	route   *mux.Route
	path    string
	methods []string
	h       func(http.ResponseWriter, *http.Request)
}

type vRouter struct {
	routes []*vRoute
	use    []mux.MiddlewareFunc
	now    *vRoute
}

func vTheRouter() *vRouter {
	x := &vRouter{}
	of := func(r *mux.Route) *vRoute {
		for _, y := range x.routes {
			if y.route == r {
				return y
			}
		}
		panic("a route of nobody")
	}
	mux.VStub_Router_HandleFunc = func(r *mux.Router, path string, f func(http.ResponseWriter, *http.Request)) *mux.Route {
		y := &vRoute{route: &mux.Route{}, path: path, h: f}
		x.routes = append(x.routes, y)
		return y.route
	}
	mux.VStub_Route_Methods = func(r *mux.Route, methods ...string) *mux.Route {
		of(r).methods = methods
		return r
	}
	mux.VStub_Route_GetPathTemplate = func(r *mux.Route) (string, error) { return of(r).path, nil }
	mux.VStub_Router_Use = func(r *mux.Router, f ...mux.MiddlewareFunc) { x.use = append(x.use, f...) }
	mux.VStub_CORSMethodMiddleware = func(r *mux.Router) mux.MiddlewareFunc {
		return func(next http.Handler) http.Handler { return next }
	}
	mux.VStub_CurrentRoute = func(r *http.Request) *mux.Route { return x.now.route }
	mux.VStub_Router_ServeHTTP = func(r *mux.Router, w http.ResponseWriter, req *http.Request) { x.serve(w, req) }
	return x
}

func (x *vRouter) serve(w http.ResponseWriter, req *http.Request) {
	code := 404
	for _, y := range x.routes {
		vars, ok := vMatch(y.path, req.URL.Path)
		if !ok {
			continue
		}
		allowed := len(y.methods) == 0
		for _, m := range y.methods {
			allowed = allowed || m == req.Method
		}
		if !allowed {
			code = 405
			continue
		}
		x.now = y
		var h http.Handler = http.HandlerFunc(y.h)
		for i := len(x.use) - 1; i >= 0; i-- {
			h = x.use[i](h)
		}
		h.ServeHTTP(w, mux.SetURLVars(req, vars))
		return
	}
	w.WriteHeader(code)
}

func vMatch(template, path string) (map[string]string, bool) {
	t, p := strings.Split(template, "/"), strings.Split(path, "/")
	if len(t) != len(p) {
		return nil, false
	}
	vars := map[string]string{}
	for i, s := range t {
		if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") {
			if p[i] == "" {
				return nil, false
			}
			vars[s[1:len(s)-1]] = p[i]
		} else if s != p[i] {
			return nil, false
		}
	}
	return vars, true
}

// vC33Routes: a request is answered by the handler of its path, and only if it reads.
func vC33Routes() {
	e := vNewEnv(vParam("n", 1))
	e.assumeReady()
	e.s.cliCfg = &config.CliConfig{RelayersEndpoints: []string{"http://one"}}
	e.blocks(1, 1)
	e.st.MissedBlocks = append(e.st.MissedBlocks, e.block(oracle.MissedProposal))
	e.st.WrongFeeBlocks = append(e.st.WrongFeeBlocks, e.block(oracle.WrongFeeRecipient))
	asked := ""
	vHTTP = func(url string) (*http.Response, error) { asked = url; return nil, errNode }
	contract.VStub_ContractCaller_LastConsolidatedSlot = func(c *contract.ContractCaller, o *bind.CallOpts) (uint64, error) {
		return e.st.LatestProcessedSlot, nil
	}
	contract.VStub_ContractCaller_RewardsRoot = func(c *contract.ContractCaller, o *bind.CallOpts) ([32]byte, error) {
		return common.HexToHash("0x0b"), nil
	}
	contract.VStub_ContractCaller_ClaimedBalance = func(c *contract.ContractCaller, o *bind.CallOpts, a common.Address) (*big.Int, error) {
		return new(big.Int), nil
	}
	ethclient.VStub_Client_ChainID = func(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return nil, errNode }
	e.events(&vEvents{fail: 1})
	s := e.s
	index := []string{vDec(vBase), "7", "x"}[vPick("index", 3)]
	routes := []struct {
		path string
		h    func(http.ResponseWriter, *http.Request)
		vars []string
	}{
		{"/", s.handleRoot, nil},
		{"/status", s.handleStatus, nil},
		{"/config", s.handleConfig, nil},
		{"/registeredrelays/" + vPubkey, s.handleValidatorRelayers, []string{"valpubkey", vPubkey}},
		{"/state", s.handleState, nil},
		{"/memory/validators", s.handleMemoryValidators, nil},
		{"/memory/validator/" + index, s.handleMemoryValidatorInfo, []string{"valindex", index}},
		{"/memory/validatorsbyindex/" + index, s.handleMemoryValidatorsByIndex, []string{"valindices", index}},
		{"/memory/validators/" + vAddrs[0], s.handleMemoryValidatorsByWithdrawal, []string{"withdrawalAddress", vAddrs[0]}},
		{"/memory/feesinfo", s.handleMemoryFeesInfo, nil},
		{"/memory/allblocks", s.handleMemoryAllBlocks, nil},
		{"/memory/proposedblocks", s.handleMemoryProposedBlocks, nil},
		{"/memory/missedblocks", s.handleMemoryMissedBlocks, nil},
		{"/memory/wrongfeeblocks", s.handleMemoryWrongFeeBlocks, nil},
		{"/memory/donations", s.handleMemoryDonations, nil},
		{"/memory/statistics", s.handleMemoryStatistics, nil},
		{"/onchain/proof/" + vAddrs[0], s.handleOnchainMerkleProof, []string{"withdrawalAddress", vAddrs[0]}},
	}
	x := vTheRouter()
	top := corsMiddleware(s.getRouter())
	_ = x
	r := routes[vPick("path", len(routes))]
	method := []string{"GET", "POST", "PUT", "DELETE", "OPTIONS"}[vPick("method", 5)]
	path := r.path
	if vPick("known", 2) == 1 {
		path = "/unknown" + path
	}
	w := &vResp{}
	code := vTry(func() {
		top.ServeHTTP(w, &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}})
	})
	vAssert(code == 0, "a request is always answered")
	vAssert(w.Header().Get("Access-Control-Allow-Origin") == "*", "every site may read the answers")
	if method != "GET" {
		vReach("refused")
		vAssert(len(w.body) == 0 && (w.code == 405 || w.code == 404 || method == "OPTIONS" && (w.code == 0 || w.code == 200 || w.code == 204)), "only reading is possible")
		vAssert(asked == "", "only reading is possible")
		return
	}
	if path != r.path {
		vReach("unknown")
		vAssert(w.code == 404, "there is nothing else")
		return
	}
	got := string(w.body)
	d := vGet(r.h, r.vars...)
	vReach("served")
	vAssert(w.code == d.code, "a path is answered by its handler")
	vAssert(vEqStr(got, string(d.body)), "a path is answered by its handler")
	if strings.HasPrefix(path, "/registeredrelays/") {
		vAssert(strings.HasSuffix(asked, vPubkey), "the relays are asked for the validator")
	}
}
