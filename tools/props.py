# The properties, their harnesses and the notes of the manifest (see gen.py).
COMMON_ASSUME = [
    "logging, metrics and map iteration order (unless stated) are irrelevant to the result; logrus Fatal ends the process",
    "ECDSA recovery and keccak256 are uninterpreted injective functions where their input is symbolic",
]
ST = ["state", "model", "events"]
OR = {"oracle": ST + ["slot"]}
CH = {"oracle": ST + ["merkle", "chk"]}
PE = {"oracle": ST + ["merkle", "chk", "persist", "fee"]}
BL = {"oracle": ["state", "block"]}
DE = {"oracle": ST + ["merkle", "chk", "determ"]}
NODE = {"oracle": ST + ["chk", "merkle", "determ", "block", "node", "fetch"]}
_EVENTS = ["EtherReceived", "SubscribeValidator", "UnsubscribeValidator", "UpdatePoolFee", "UpdatePoolFeeRecipient", "UpdateCheckpointSlotSize", "UpdateSubscriptionCollateral", "BanValidator", "UnbanValidator"]
# calls of the clients, answered by the harness (see engine/stub.go)
NODE_STUBS = [
    dict(pkg="github.com/avast/retry-go/v4", fns=["Do"]),
    dict(pkg="github.com/attestantio/go-eth2-client/http", fns=["Service." + x for x in ["ProposerDuties", "Validators", "SignedBeaconBlock"]]),
    dict(pkg="github.com/ethereum/go-ethereum/ethclient", fns=["Client.HeaderByNumber", "Client.TransactionReceipt"]),
    dict(pkg="contract", fns=[f for t in _EVENTS for f in ("ContractFilterer.Filter" + t, "Contract%sIterator.Next" % t, "Contract%sIterator.Error" % t, "Contract%sIterator.Close" % t)]),
]
LOOP_STUBS = [
    dict(pkg="github.com/avast/retry-go/v4", fns=["Do"]),
    dict(pkg="github.com/attestantio/go-eth2-client/http", fns=["Service." + x for x in ["ProposerDuties", "Validators", "SignedBeaconBlock", "BeaconBlockHeader", "NodeSyncing"]]),
    dict(pkg="github.com/ethereum/go-ethereum/ethclient", fns=["Client." + x for x in ["SyncProgress", "BalanceAt", "PendingNonceAt", "NetworkID"]]),
    dict(pkg="github.com/ethereum/go-ethereum/accounts/abi/bind", fns=["WaitMined", "NewKeyedTransactorWithChainID"]),
    dict(pkg="github.com/ethereum/go-ethereum/crypto", fns=["PubkeyToAddress"]),
    dict(pkg="contract", fns=["NewContract", "ContractTransactor.SubmitReport"] + ["ContractCaller." + x for x in ["LastConsolidatedSlot", "RewardsRoot", "Quorum", "AddressToVotedReportHash", "ReportHashToReport", "ClaimedBalance"]]),
    dict(pkg="oracle", fns=["Oracle.SaveToJson"]),
    dict(pkg=".", calls={"time.Sleep": "vSleep", "time.Now": "vNow", "rand.Intn": "vIntn"}),
]
API_STUBS = [
    dict(pkg="github.com/avast/retry-go/v4", fns=["Do"]),
    dict(pkg="github.com/attestantio/go-eth2-client/http", fns=["Service." + x for x in ["BeaconBlockHeader", "NodeSyncing", "DepositContract"]]),
    dict(pkg="github.com/ethereum/go-ethereum/ethclient", fns=["Client." + x for x in ["SyncProgress", "ChainID"]]),
    dict(pkg="contract", fns=["ContractCaller." + x for x in ["LastConsolidatedSlot", "RewardsRoot", "ClaimedBalance"]] +
         [f for t in ["SubscribeValidator", "UnsubscribeValidator"] for f in ("ContractFilterer.Filter" + t, "Contract%sIterator.Next" % t, "Contract%sIterator.Error" % t, "Contract%sIterator.Close" % t)]),
    dict(pkg="api", calls={"http.Get": "vHTTPGet"}),
]
C33_STUBS = API_STUBS + [dict(pkg="github.com/gorilla/mux", fns=["Router.HandleFunc", "Route.Methods", "Route.GetPathTemplate", "Router.Use", "Router.ServeHTTP", "CORSMethodMiddleware", "CurrentRoute"])]
C17_STUBS = [dict(s, fns=s["fns"] + ["Service.Validators"]) if s["pkg"].endswith("/http") else s for s in API_STUBS]
DISK_STUBS = [dict(pkg="oracle", calls={"os.MkdirAll": "vMkdirAll", "os.OpenFile": "vOpenFile", "os.Create": "vCreate", "os.CreateTemp": "vCreateTemp",
    "os.WriteFile": "vWriteFile", "ioutil.WriteFile": "vWriteFile", "ioutil.TempFile": "vCreateTemp", "os.Rename": "vRename"})]
def API(files, oracle=["mainnode"]):
    return {"api": ["env", "stats", "relay"] + files, "oracle": oracle}
API_ASSUME = ["requests are handed to the handlers (their routes: C33); the library's router and sockets are outside", "the two nodes and the relays answer through their clients as documented; those calls are stand-ins in the check",
              "the state does not change while a request is answered: the handlers work on a snapshot of it (the snapshot itself: C17)"]
ANOTE = ("Holds for every value of the symbolic inputs within the stated bounds (number of validators, blocks, events, lengths of the texts). "
         "Every harness also asserts that the request neither stops the oracle nor changes its state. "
         "Trusts go/ssa, the engine's Go semantics and library models (cross-checked natively on witnesses of every run) and z3. ")
START_STUBS = [
    {'pkg': 'github.com/avast/retry-go/v4', 'fns': ['Do']},
    {'pkg': 'github.com/attestantio/go-eth2-client/http', 'fns': ['Service.DepositContract', 'Service.Genesis', 'Service.SignedBeaconBlock', 'Service.NodeSyncing', 'New']},
    {'pkg': 'github.com/ethereum/go-ethereum/ethclient', 'fns': ['Client.ChainID', 'Client.BalanceAt', 'Client.BlockByNumber', 'Client.HeaderByNumber', 'Client.SyncProgress', 'Dial']},
    {'pkg': 'github.com/ethereum/go-ethereum/accounts/abi/bind', 'fns': ['MetaData.GetAbi']},
    {'pkg': 'github.com/ethereum/go-ethereum/accounts/abi', 'fns': ['Arguments.Unpack']},
    {'pkg': 'contract', 'fns': ['ContractCaller.DeploymentBlockNumber', 'ContractCaller.CheckpointSlotSize', 'ContractCaller.PoolFeeRecipient', 'ContractCaller.PoolFee', 'ContractCaller.SubscriptionCollateral', 'ContractCaller.GetAllOracleMembers', 'ContractCaller.Quorum', 'NewContract']},
    {'pkg': 'github.com/ethereum/go-ethereum/crypto', 'fns': ['PubkeyToAddress']}]
MAIN_STUBS = [
    {'pkg': 'github.com/avast/retry-go/v4', 'fns': ['Do']},
    {'pkg': 'github.com/ethereum/go-ethereum/ethclient', 'fns': ['Client.BalanceAt']},
    {'pkg': 'utils', 'fns': ['DecryptKey']},
    {'pkg': 'config', 'fns': ['NewCliConfig']},
    {'pkg': 'metrics', 'fns': ['RunMetrics']},
    {'pkg': 'api', 'fns': ['ApiService.StartHTTPServer']},
    {'pkg': 'oracle', 'fns': ['NewOnchain', 'Onchain.GetConfigFromContract']},
    {'pkg': 'contract', 'fns': ['ContractCaller.GetAllOracleMembers', 'ContractCaller.LastConsolidatedSlot', 'ContractCaller.RewardsRoot']},
    {'pkg': '.', 'fns': ['mainLoop'], 'calls': {'http.Get': 'vHTTPGet', 'signal.Notify': 'vNotify'}}]
CLI_STUBS = [
    {'pkg': 'config', 'calls': {'flag.Bool': 'vFlagBool', 'flag.String': 'vFlagString', 'flag.Int': 'vFlagInt', 'flag.BoolVar': 'vFlagBoolVar', 'flag.StringVar': 'vFlagStringVar', 'flag.IntVar': 'vFlagIntVar', 'flag.Parse': 'vFlagParse'}}]
C37_STUBS = [{'pkg': 'github.com/avast/retry-go/v4', 'fns': ['Do'], 'extra': '// VAttempts: how often a call with these options is tried.\nfunc VAttempts(opts []Option) uint { c := newDefaultRetryConfig(); for _, o := range opts { o(c) }; return c.attempts }\n'},
 {'pkg': 'github.com/attestantio/go-eth2-client/http', 'fns': ['Service.Validators', 'Service.BeaconBlockHeader', 'Service.NodeSyncing', 'Service.Address', 'Service.ProposerDuties', 'Service.SignedBeaconBlock']},
 {'pkg': 'github.com/ethereum/go-ethereum/ethclient', 'fns': ['Client.SyncProgress', 'Client.BalanceAt', 'Client.BlockByNumber', 'Client.HeaderByNumber', 'Client.TransactionReceipt', 'Client.PendingNonceAt', 'Client.NetworkID']},
 {'pkg': 'contract',
  'fns': ['ContractCaller.GetAllOracleMembers',
          'ContractCaller.AddressToVotedReportHash',
          'ContractCaller.ReportHashToReport',
          'ContractCaller.Quorum',
          'ContractCaller.CheckpointSlotSize',
          'ContractCaller.LastConsolidatedSlot',
          'ContractCaller.SubscriptionCollateral',
          'ContractCaller.DeploymentBlockNumber',
          'ContractCaller.PoolFee',
          'ContractCaller.PoolFeeRecipient',
          'ContractCaller.RewardsRoot',
          'ContractCaller.ClaimedBalance']},
 {'pkg': 'oracle', 'calls': {'http.DefaultClient': 'vHTTPClient', 'http.NewRequest': 'vNewRequest'}}]
C38_STUBS = [{'pkg': 'github.com/ethereum/go-ethereum/ethclient', 'fns': ['Client.PendingNonceAt', 'Client.NonceAt', 'Client.NetworkID', 'Client.ChainID']},
 {'pkg': 'github.com/ethereum/go-ethereum/accounts/abi/bind', 'fns': ['WaitMined', 'NewKeyedTransactorWithChainID']},
 {'pkg': 'github.com/ethereum/go-ethereum/crypto', 'fns': ['PubkeyToAddress']},
 {'pkg': 'contract', 'fns': ['NewContract', 'ContractTransactor.SubmitReport']},
 {'pkg': 'oracle', 'calls': {'context.WithDeadline': 'vDeadline', 'context.WithTimeout': 'vTimeout'}}]
NODE_ASSUME = ["the two nodes answer through go-eth2-client and go-ethereum as documented; those calls are stand-ins in the check, and a call that fails is tried as often as configured"]
NOTE = ("Holds for every value of the symbolic inputs within the stated bounds (number of validators, events, transactions); "
        "the pre-state is arbitrary, so one slot step covers histories of any length under the stated representation. "
        "Trusts go/ssa, the engine's Go semantics and library models (cross-checked natively on witnesses of every run) and z3. ")
B2 = "n tracked validators with arbitrary statuses, balances < 2^96 wei, any fee 0..10000, any slot < 2^40, "
FB = "one symbolic validator among fill more of every status with fixed statuses and addresses but arbitrary balances < 2^96, any fee 0..10000, any slot < 2^40, "
EB = "after the same request was answered one slot earlier, from another state: "
WB = "a slot with a donation and a ban, an unban, a rewarded proposal or a missed one before, processed by the same oracle with other effective balances, then: " + B2
FL = "one symbolic validator among fill more, two to an address in differing spellings, "

PROPS = [
dict(id="C01", title="Every wei that enters the pool is owed to someone, exactly once",
 statement="For every processed slot, the total owed by the oracle (validators' accumulated and pending rewards plus the pool's own fees) grows by exactly the ether that entered the pool in that slot: block rewards sent to the pool, donations and subscription collaterals. Bans, unsubscriptions, unbans, missed blocks and blocks paid elsewhere move money between owners but never create or destroy any.",
 kind=["inputs", "histories"], qtext="all pre-states of the oracle, all kinds of block, all amounts and all combinations of contract events in a slot",
 why="unit tests check a few hand-computed sequences; the guarantee is over every combination of statuses, amounts and events, where a lost remainder or a double-counted event shows only for particular amounts",
 files=["oracle/oracle.go", "oracle/block.go"],
 mech=[("AdvanceStateToNextSlot", "oracle/oracle.go"), ("increaseAllPendingRewards", "oracle/oracle.go"), ("GetDonations", "oracle/block.go")],
 observe=["oracle state after AdvanceStateToNextSlot"],
 check=dict(files={"oracle": ST + ["c01"]}, note=NOTE + "Bounds: 2 validators, 1 donation next to the block reward, 2 subscriptions or bans in a block.",
  harnesses=[
   ("vC01Proposal", "oracle", dict(n=2, donations=1), dict(n=2, donations=2), ["advanced"], B2 + "one block of any kind by any validator, any credentials, plus donations"),
   ("vC01Exception", "oracle", dict(n=1, donations=1), dict(n=2, donations=1), ["advanced"], B2 + "the hard coded mainnet slot"),
   ("vC01Events", "oracle", dict(n=2, bans=1), dict(n=2, bans=2), ["advanced"], B2 + "one subscription, unsubscription, or bans and an unban"),
   ("vC01TwoSubs", "oracle", dict(n=1, subs=2, what=0, nets=1), dict(n=2, subs=2, what=0), ["advanced"], B2 + "two subscriptions in a block"),
   ("vC01Proposal", "oracle", dict(n=1, donations=1, fill=30), dict(n=1, donations=1, fill=100), ["advanced"], FB + "one block of any kind"),
   ("vC01Events", "oracle", dict(n=1, bans=1, fill=30), dict(n=1, bans=1, fill=100), ["advanced"], FB + "one subscription, unsubscription, or a ban and an unban"),
  ])),
dict(id="C02", title="Rewards are split by the published rule of the fork in force, to the wei",
 statement="An amount shared by the pool gives the pool its fee percentage, rounded down, plus every rounding remainder, and gives the rest to the validators that are Active or YellowCard and to nobody else: equal shares before the Electra upgrade and shares proportional to effective balance at that slot from it on. With no such validator the pool takes everything.",
 kind=["inputs", "configurations"], qtext="all amounts, fee percentages, sets of validator statuses and effective balances, all slots and networks",
 why="tests compute a handful of splits with round numbers; rounding, fork boundaries, and fee and balance extremes are over all integers",
 files=["oracle/oracle.go", "oracle/types.go"],
 mech=[("increaseAllPendingRewards", "oracle/oracle.go"), ("handleElectraRewardDistribution", "oracle/oracle.go"), ("handleFork1RewardDistribution", "oracle/oracle.go"), ("handlePreFork1RewardDistribution", "oracle/oracle.go")],
 check=dict(files=OR, note=NOTE + "Compares every balance with an independent model of the split; 3 validators (5 in the thorough tier), up to two amounts in a block.",
  assume=["the beacon node returns exactly the requested validators, with positive effective balances"],
  harnesses=[
   ("vC02Split", "oracle", dict(n=3), dict(n=5), ["split"], B2 + "one amount < 2^96"),
   ("vC02Two", "oracle", dict(n=2), dict(n=3), ["split"], B2 + "two amounts in a block"),
   ("vC02Split", "oracle", dict(n=1, fill=30), dict(n=1, fill=100), ["split"], FB + "one amount < 2^96"),
   ("vC02Split", "oracle", dict(n=1, warm=4), dict(n=2, warm=4), ["split"], WB + "one amount < 2^96"),
   ("vC02Split", "oracle", dict(n=2, warm=1), dict(n=3, warm=1), ["split"], WB + "one amount < 2^96"),
  ])),
dict(id="C04", title="A block proposal moves the proposer between statuses as documented",
 statement="A block that pays the pool subscribes or rehabilitates its proposer one step (RedCard to YellowCard, YellowCard or not subscribed to Active) and turns all of the proposer's pending rewards into claimable ones; a missed block moves a subscribed proposer one card down and changes no balance; a block of a subscribed proposer that pays elsewhere bans it and shares its pending rewards. Banned validators stay banned, proposers the pool does not know are only affected by blocks that pay the pool, and every such block is recorded once with its slot, proposer and reward.",
 kind=["inputs", "histories"], qtext="all statuses of all validators, all kinds of block, all kinds of withdrawal credentials, all amounts",
 why="the state machine has 5 statuses times 8 events times balances; tests walk a few paths through it",
 files=["oracle/oracle.go", "oracle/block.go"],
 mech=[("advanceStateMachine", "oracle/oracle.go"), ("handleCorrectBlockProposal", "oracle/oracle.go"), ("handleMissedBlock", "oracle/oracle.go"), ("handleBanValidator", "oracle/oracle.go")],
 check=dict(files=OR, note=NOTE + "Whole state compared with a reference model of the documented rules.",
  harnesses=[("vC04Proposal", "oracle", dict(n=2), dict(n=3), ["proposal"], B2 + "one block of any kind, proposer tracked or not, BLS, 0x01 or 0x02 credentials"),
   ("vC04Proposal", "oracle", dict(n=1, fill=30), dict(n=1, fill=100), ["proposal"], FB + "one block of any kind, proposer among the symbolic validators or untracked"),
   ("vC04Proposal", "oracle", dict(n=1, warm=4), dict(n=2, warm=4), ["proposal"], WB + "one block of any kind")])),
dict(id="C06", title="Only a valid subscription by the withdrawal owner subscribes a validator",
 statement="A subscription event subscribes a validator only if the validator exists on the beacon chain and can be subscribed, has an execution withdrawal address, the sender is that address, the deposit reaches the minimum and the validator is neither subscribed nor banned. The validator is recorded with its own address and key, and the deposit becomes its pending reward; a repeated or banned subscription returns the deposit as claimable rewards, and any other invalid one leaves it to the pool, changing nothing else.",
 kind=["inputs", "histories"], qtext="all senders, deposits, beacon states, credentials, prior statuses, and orders of events in a block",
 why="tests try a few senders and statuses; the order of the checks decides who gets the deposit in every combination",
 files=["oracle/oracle.go", "utils/utils.go"],
 mech=[("handleManualSubscriptions", "oracle/oracle.go"), ("GetCompatibleAddress", "utils/utils.go")],
 check=dict(files=OR, note=NOTE + "One and two subscription events in a block.",
  harnesses=[
   ("vC06Sub", "oracle", dict(n=2, subs=1), dict(n=3, subs=1), ["subscription"], B2 + "one subscription"),
   ("vC06SubPair", "oracle", dict(n=1, subs=2, nets=1), dict(n=2, subs=2, nets=1), ["subscription"], B2 + "two subscriptions in a block"),
   ("vC06Sub", "oracle", dict(n=1, subs=1, fill=30), dict(n=1, subs=1, fill=100), ["subscription"], FB + "one subscription"),
   ("vC06Sub", "oracle", dict(n=1, subs=1, warm=2, nets=1), dict(n=1, subs=1, warm=4), ["subscription"], WB + "one subscription"),
  ])),
dict(id="C07", title="Only the withdrawal owner can unsubscribe a validator, forfeiting its pending",
 statement="An unsubscription event takes effect only if the validator exists, is subscribed, has an execution withdrawal address and that address sent the event. It then leaves the validator unsubscribed with its claimable rewards untouched and its pending rewards shared among the remaining eligible validators; otherwise nothing changes.",
 kind=["inputs", "histories"], qtext="all senders, statuses, balances and credentials, and pairs of events in a block",
 why="tests sample a few statuses and senders with fixed balances",
 files=["oracle/oracle.go"], mech=[("handleManualUnsubscriptions", "oracle/oracle.go")],
 check=dict(files=OR, note=NOTE,
  harnesses=[
   ("vC07Unsub", "oracle", dict(n=2, unsubs=1), dict(n=3, unsubs=1), ["unsubscription"], B2 + "one unsubscription"),
   ("vC07UnsubPair", "oracle", dict(n=1, unsubs=2), dict(n=2, unsubs=2), ["unsubscription"], B2 + "two unsubscriptions in a block"),
   ("vC07Unsub", "oracle", dict(n=1, unsubs=1, fill=30), dict(n=1, unsubs=1, fill=100), ["unsubscription"], FB + "one unsubscription"),
   ("vC07Unsub", "oracle", dict(n=1, unsubs=1, warm=4), dict(n=2, unsubs=1, warm=4), ["unsubscription"], WB + "one unsubscription"),
  ])),
dict(id="C08", title="Bans and unbans take effect as documented and in the documented order",
 statement="A manual ban bans a subscribed validator, keeps its claimable rewards, and shares the pending rewards of all validators banned in the block once, after all of them are banned; a manual unban makes a banned validator Active again with its balances unchanged; both are ignored for any other validator. Within a slot the oracle applies subscriptions, then the block, then unsubscriptions, donations, bans and unbans, in that order.",
 kind=["inputs", "histories"], qtext="all statuses, balances, sets of banned and unbanned validators, and combinations of events in one slot",
 why="tests use one ban at a time with fixed amounts; the order only matters for particular combinations",
 files=["oracle/oracle.go"], mech=[("handleManualBans", "oracle/oracle.go"), ("handleManualUnbans", "oracle/oracle.go"), ("AdvanceStateToNextSlot", "oracle/oracle.go")],
 check=dict(files=OR, note=NOTE + "Up to two bans and one unban, or one event of each kind around one block.",
  harnesses=[
   ("vC08Ban", "oracle", dict(n=2, bans=1, unbans=1), dict(n=3, bans=1, unbans=1), ["ban"], B2 + "a ban and an unban of any validators"),
   ("vC08BanPair", "oracle", dict(n=2, bans=2, unbans=0), dict(n=3, bans=3, unbans=0), ["ban"], B2 + "several bans"),
   ("vC08Ban", "oracle", dict(n=1, bans=1, unbans=1, fill=30), dict(n=1, bans=1, unbans=1, fill=100), ["ban"], FB + "a ban and an unban"),
   ("vC08Ban", "oracle", dict(n=1, bans=1, unbans=1, warm=4), dict(n=2, bans=1, unbans=1, warm=4), ["ban"], WB + "a ban and an unban"),
   ("vC08Order", "oracle", dict(n=2, who=0), {}, ["order"], B2 + "any subset of events around a block of the same validator (reward rules fork 1 and Electra)"),
   ("vC08Order", "oracle", dict(n=2, who=1), {}, ["order"], B2 + "any subset of events about another validator than the proposer"),
  ])),
dict(id="C09", title="The committed leaves are exactly the claimable balances of every address",
 statement="A merkle root commits first to the pool's own fees and then to exactly one leaf per withdrawal address, in ascending address order, whose balance is the sum of the claimable rewards of all validators with that address regardless of the letter case it was recorded in. Nothing claimable is left out or counted twice, and computing the leaves changes no balance.",
 kind=["inputs"], qtext="all sets of validators, address spellings, collisions and balances",
 why="tests use a few fixed validators; collisions and letter case combine with iteration order",
 files=["oracle/merklelizer.go"], mech=[("AggregateValidatorsIndexes", "oracle/merklelizer.go"), ("OrderByWithdrawalAddress", "oracle/merklelizer.go")],
 check=dict(files=CH, note=NOTE + "4 validators over 5 address spellings (5 in the thorough tier), both iteration orders.",
  assume=["apart from the two known findings, neither the pool's address nor its fee address is a withdrawal address of a validator"],
  harnesses=[("vC09Leaves", "oracle", dict(n=4, addrs=5), dict(n=5, addrs=5), ["leaves"], "n validators, balances < 2^200, addrs spellings of withdrawal addresses"),
   ("vC09Leaves", "oracle", dict(n=1, addrs=5, fill=40), dict(n=1, addrs=5, fill=200), ["leaves"], FL + "balances < 2^200"),
   ("vC09Alias", "oracle", {}, {}, ["alias"], "one validator whose withdrawal address is the pool's fee address"),
   ("vC09Pool", "oracle", {}, {}, ["pool"], "one validator whose withdrawal address is the pool")])),
dict(id="C10", title="Every address gets a proof of its exact balance for each checkpoint",
 statement="Whenever a checkpoint is committed, every withdrawal address and the pool fee address have a stored leaf with exactly their balance and a stored proof that the contract accepts for that balance and the published root. A checkpoint is committed exactly when at least one validator is tracked, under the last processed slot.",
 kind=["inputs"], qtext="all balances and address sets, all tree shapes within the bound and all relative orders of the hashes",
 why="tests verify a couple of fixed trees; odd tree sizes and sibling order depend on the hashes",
 files=["oracle/oracle.go", "oracle/merklelizer.go"], mech=[("FreezeCheckpoint", "oracle/oracle.go"), ("GenerateTreeFromState", "oracle/merklelizer.go")],
 check=dict(files=CH, note=NOTE + "Trees of up to 5 leaves (6 thorough) with keccak256 uninterpreted, so all orders of the hashes are covered.",
  harnesses=[("vC10Proofs", "oracle", dict(n=4, addrs=5, bits=96), dict(n=5, addrs=5, bits=96), ["frozen"], "n validators with balances < 2^96"),
   ("vC10Proofs", "oracle", dict(n=1, addrs=1, bits=96, fill=12, fixed=1), dict(n=1, addrs=1, bits=96, fill=16, fixed=1), ["frozen"], FL + "the fixed ones with concrete balances"),
   ("vC10Hex", "oracle", dict(n=1), dict(n=2), ["hex"], "the writing of n proof hashes with any bytes")])),

dict(id="C03", title="Two oracles fed the same chain reach the same state and root",
 statement="The state after a slot, and the merkle root of a checkpoint, are functions of the chain data alone: the order in which the oracle happens to iterate its tables of validators never changes a balance, a status, a record or the root, not even in the periodic cleanup when several validators exit and consolidate at once.",
 kind=["inputs", "schedules"], qtext="all pre-states, all kinds of slot events, and all iteration orders of every map that is ranged over",
 why="Go randomises map iteration, so a test that passes says nothing about another order; a disagreement needs a particular order together with particular amounts",
 files=["oracle/oracle.go", "oracle/merklelizer.go"], mech=[("increaseAllPendingRewards", "oracle/oracle.go"), ("ValidatorCleanup", "oracle/oracle.go"), ("OrderByWithdrawalAddress", "oracle/merklelizer.go")],
 check=dict(files=DE, note=NOTE + "Twin execution: same state and inputs, one with insertion order and one with every iteration order of every map.",
  harnesses=[
   ("vC03Slot", "oracle", dict(n=2), dict(n=3), ["twins"], B2 + "any block, subscription, unsubscription, ban or donation; every iteration order"),
   ("vC03Root", "oracle", dict(n=2), dict(n=3), ["roots"], B2 + "checkpoint over shared and differently spelled addresses"),
   ("vC03Cleanup", "oracle", dict(n=2, consols=1), dict(n=2, consols=2), ["twins"], B2 + "cleanup with exited validators and pending consolidations"),
  ])),
dict(id="C11", title="A committed checkpoint never changes and the newest one is served",
 statement="A checkpoint holds a snapshot of every validator, balance, leaf, proof and the root at its slot. Later slots and later checkpoints change none of them and share no storage with them, all checkpoints are kept, and the latest committed slot and state are always those with the highest slot.",
 kind=["inputs", "histories"], qtext="all states, all following blocks and events, and all sets of committed slots",
 why="aliasing between the live state and a snapshot shows only when a particular later event mutates the shared object",
 files=["oracle/oracle.go"], mech=[("FreezeCheckpoint", "oracle/oracle.go"), ("LatestCommitedSlot", "oracle/oracle.go"), ("LatestCommitedState", "oracle/oracle.go")],
 check=dict(files=CH, note=NOTE + "Checkpoint, one slot of any kind, second checkpoint.",
  harnesses=[
   ("vC11Immutable", "oracle", dict(n=2), dict(n=3), ["immutable"], B2 + "two checkpoints one slot apart", dict(budget=150)),
   ("vC11Immutable", "oracle", dict(n=1, verify=1), dict(n=1, verify=1), ["immutable"], "the same with one validator, and the leaves and proofs of the second checkpoint checked against its root"),
   ("vC11Latest", "oracle", {}, {}, ["latest"], "up to 3 checkpoints at arbitrary slots, both iteration orders"),
   ("vC11Immutable", "oracle", dict(n=1, older=40), dict(n=1, older=200), ["immutable"], "as above with one validator and `older` earlier checkpoints that are all kept as they were"),
  ])),
dict(id="C12", title="Slots are processed exactly once, in order, starting at the deployment",
 statement="A new oracle starts empty at the deployment slot. The oracle accepts a block only for the slot right after the last processed one; then its position advances by exactly one slot, and its last block only if the slot was not missed. Any other block is rejected and leaves the whole state, position and records unchanged, so no slot is skipped or applied twice.",
 kind=["inputs", "histories"], qtext="all positions, all block slots, all kinds of block",
 why="tests feed contiguous slots; skipping or repeating a slot must be impossible from every position",
 files=["oracle/oracle.go"], mech=[("AdvanceStateToNextSlot", "oracle/oracle.go"), ("NewOracle", "oracle/oracle.go")],
 check=dict(files=CH, note=NOTE,
  harnesses=[
   ("vC12Seq", "oracle", {}, {}, ["sequence"], "1 validator, any last and next slot < 2^62, a block of any slot"),
   ("vC12Seq", "oracle", dict(fill=40), dict(fill=200), ["sequence"], "the same with fill more validators and records"),
   ("vC12Start", "oracle", {}, {}, ["start"], "any deployment slot"),
  ])),
dict(id="C13", title="Checkpoints are at the configured interval after the deployment, no others",
 statement="The oracle calls a slot a checkpoint exactly when it is at or after the deployment slot and a whole number of checkpoint intervals from it; asking before the deployment is an error and never a checkpoint.",
 kind=["inputs", "configurations"], qtext="all deployment slots, interval sizes and processed slots",
 why="tests try one deployment and interval",
 files=["oracle/oracle.go"], mech=[("IsCheckpoint", "oracle/oracle.go")],
 check=dict(files=CH, note=NOTE + "All 64 bit values.",
  harnesses=[("vC13Checkpoint", "oracle", {}, {}, ["checkpoint"], "all 64 bit slots, deployments and positive sizes")])),
dict(id="C22", title="The oracle knows exactly when it agrees with the contract",
 statement="The oracle says it is in sync with the chain exactly when the newest checkpoint's root equals the contract's root (in any letter case) and its slot equals the contract's slot; with no checkpoint, exactly when the contract's root is still the default one. If only the root or only the slot agrees it reports an error, and otherwise none.",
 kind=["inputs"], qtext="all slots, any number of checkpoints, matching, differing and default roots in any letter case",
 why="tests try a few combinations", files=["oracle/oracle.go"], mech=[("IsOracleInSyncWithChain", "oracle/oracle.go")],
 check=dict(files=CH, note=NOTE + "Up to two checkpoints at any slots, three roots.",
  harnesses=[("vC22Sync", "oracle", {}, {}, ["sync"], "0 to 2 checkpoints, any slots, 3 roots, both letter cases")])),
dict(id="C23", title="The reconciliations raise an alarm exactly when the books do not balance",
 statement="The onchain reconciliation succeeds exactly when everything the oracle owes, less what was already claimed, equals the balance of the contract; the offchain one exactly when what it owes equals all donations, collaterals and vanilla block rewards it recorded. Neither changes the state. The addresses whose claims are looked up are all withdrawal addresses and the fee address of the pool, each exactly once whatever its letter case.",
 kind=["inputs"], qtext="all balances, claims, and recorded events",
 why="a test with balanced books does not show that every imbalance, of one wei, is noticed",
 files=["oracle/oracle.go"], mech=[("RunOnchainReconciliation", "oracle/oracle.go"), ("RunOffchainReconciliation", "oracle/oracle.go"), ("GetUniqueWithdrawalAddresses", "oracle/oracle.go")],
 check=dict(files=CH, note=NOTE,
  harnesses=[
   ("vC23Onchain", "oracle", dict(n=3), dict(n=4), ["reconciled"], "n validators, 2 claimed addresses, balances < 2^120"),
   ("vC23Onchain", "oracle", dict(n=1, fill=40), dict(n=1, fill=150), ["reconciled"], FL + "balances < 2^120"),
   ("vC23Offchain", "oracle", dict(n=2), dict(n=3), ["reconciled"], "up to 2 donations, 2 collaterals and 2 blocks"),
   ("vC33Unique", "oracle", dict(n=3), dict(n=4), ["unique"], "n validators over 5 address spellings"),
   ("vC33Unique", "oracle", dict(n=1, fill=40), dict(n=1, fill=150), ["unique"], FL + "every address counted once"),
  ])),
dict(id="C26", title="The cleanup retires exited validators and moves their pending rewards once",
 statement="Every 1200 slots, from fork 1 on, a tracked validator that is no longer active on the beacon chain and has pending rewards is unsubscribed (unless banned or not subscribed) and loses its pending rewards: they go to the target of its pending consolidation when there is one that is not banned (tracked from then on, not subscribed, with its own withdrawal address and key, if it was not), and are otherwise shared once by the split rule after all are retired. Validators are retired in ascending order of index, so that a target retired later passes on what it received. Nobody else is touched, the beacon chain is asked about the processed slot, and at other slots nothing happens.",
 kind=["inputs", "histories"], qtext="all statuses, balances, beacon states, sets of pending consolidations and slots",
 why="tests cover one exit and one consolidation; exits, bans and consolidations combine",
 files=["oracle/oracle.go"], mech=[("ValidatorCleanup", "oracle/oracle.go")],
 check=dict(files=DE, note=NOTE + "Whole state compared with a reference model.",
  assume=["a validator is the source of at most one pending consolidation and not of one to itself"],
  harnesses=[
   ("vC26Cleanup", "oracle", dict(n=2, consols=1), dict(n=3, consols=1, nets=1), ["cleanup"], B2 + "any beacon states, one pending consolidation among them"),
   ("vC26Cleanup", "oracle", dict(n=2, consols=2, nets=1), dict(n=2, consols=2), ["cleanup"], B2 + "any beacon states, two pending consolidations"),
   ("vC26Cleanup", "oracle", dict(n=2, consols=1, nets=1, fill=2), dict(n=2, consols=1, fill=2), ["cleanup"], "two validators as above, any beacon states, one pending consolidation among them, next to an Active and a YellowCard validator, who stay and get what is shared"),
   ("vC26Cleanup", "oracle", dict(n=1, consols=1, fill=40), dict(n=1, consols=1, fill=100), ["cleanup"], FB + "any beacon states of it, one pending consolidation"),
   ("vC26Cleanup", "oracle", dict(n=1, consols=1, warm=4, nets=1), dict(n=1, consols=1, warm=4), ["cleanup"], WB + "any beacon states of it, one pending consolidation"),
   ("vC26Only", "oracle", dict(n=2), dict(n=3), ["quiet"], B2 + "slots that are no multiple of 1200"),
  ])),
dict(id="C14", title="A saved state loads back exactly, and nothing else is ever loaded",
 statement="Loading a saved state gives back every validator, balance, status, checkpoint, leaf, proof, event, block record, position and parameter exactly, and saving it again gives the same hash. A file that was modified, is not a state, or belongs to another network, pool, fee address, collateral, checkpoint interval or deployment is refused and leaves the oracle as it was; without a file the oracle starts from scratch. Asked for an older checkpoint, the newest saved one among the last three is loaded.",
 kind=["inputs", "configurations"], qtext="all states, all modifications of a field, all configurations that differ in one parameter",
 why="tests save and load a few states; a lost or swapped field or an unchecked parameter shows only for particular values",
 files=["oracle/oracle.go", "oracle/types.go"], mech=[("SaveToJson", "oracle/oracle.go"), ("LoadFromBytes", "oracle/oracle.go"), ("LoadGivenState", "oracle/oracle.go")],
 check=dict(files=PE, note=NOTE + "encoding/json, the file system and sha256 are modelled (struct tags and the repository's own marshalers are executed).",
  assume=["sha256 has no collisions"],
  harnesses=[
   ("vC14RoundTrip", "oracle", dict(n=1), dict(n=2), ["loaded"], "a state with something in every field: n validators, a checkpoint, one event and block of each kind"),
   ("vC14Config", "oracle", {}, {}, ["other configuration"], "each parameter different in turn"),
   ("vC14Tamper", "oracle", {}, {}, ["tampered"], "one of 20 fields changed to any other value, with the hash kept or removed"),
   ("vC14Missing", "oracle", {}, {}, ["missing"], "no file, seven kinds of garbage"),
   ("vC14Given", "oracle", {}, {}, ["given"], "any subset of four saved checkpoints, any interval"),
  ])),
dict(id="C15", title="A crash or failure while saving never loses or corrupts the saved state",
 statement="If the oracle dies, or its power fails, at any point while it saves its state, the next start loads either the complete previous state or the complete new one, never fails to load and never starts from scratch once a state was saved; the copy kept per checkpoint is complete as well. The same holds when an operation of the disk fails: the failure is reported, and the next save succeeds.",
 kind=["crash_points", "fault_sequences", "histories"], qtext="all states and every point before, in the middle of and after each file operation of a save",
 why="no test kills the process in the middle of a write",
 files=["oracle/oracle.go"], mech=[("SaveToJson", "oracle/oracle.go"), ("LoadFromPath", "oracle/oracle.go")],
 check=dict(files={"oracle": PE["oracle"] + ["threadops", "faults"]}, stubs=DISK_STUBS, note=NOTE + "Crash points are symbolic choices in a model of the file system where a write in progress may leave part of the file, a rename is atomic, and a power failure loses the contents of every file that was not flushed to the disk.",
  outside=["disks that lose what was flushed to them; folder entries that are older after a power failure"],
  harnesses=[("vC15Crash", "oracle", {}, {}, ["restart"], "any state, with or without a previous save, with or without the checkpoint copy"),
   ("vC15Faults", "oracle", {}, {}, ["failed", "saved"], "the same with any one file operation failing, and a save afterwards")])),
dict(id="C16", title="Pool parameters change only as scheduled, and restarts agree on them",
 statement="A block that announces a pool fee, fee recipient, checkpoint size or collateral is accepted only if the announced value is the configured one, or is the fee scheduled for exactly that slot and network; then the new fee is in force from that block on. Otherwise, or with two such events of a kind, the block is refused and changes nothing. A saved state is accepted exactly when its fee is the initial one or the one scheduled by its slot, also when a state from after the change was loaded before.",
 kind=["inputs", "configurations", "histories"], qtext="all slots, networks, announced values and combinations of events, all saved fees",
 why="tests use a few slots and fees; the schedule must hold at each slot and across restarts",
 files=["oracle/oracle.go"], mech=[("validateFullBlockConfig", "oracle/oracle.go"), ("applyFeeScheduleUpTo", "oracle/oracle.go"), ("LoadFromBytes", "oracle/oracle.go")],
 check=dict(files=PE, note=NOTE,
  harnesses=[
   ("vC16Event", "oracle", dict(n=1), dict(n=2), ["event"], B2 + "up to two fee events and one or two of another kind"),
   ("vC16Load", "oracle", {}, {}, ["loaded"], "any saved fee, initial fee and slot"),
   ("vC16Older", "oracle", {}, {}, ["older"], "any two saved slots"),
  ])),
dict(id="C17", title="Requests, signals and the processing of slots never get in each other's way",
 statement="The main loop, the requests being served and the save at a signal share the oracle, its configuration and the validators known. Whatever the interleaving, no two of them access the same memory at the same time unless both only read it (no data race: what is served is never half changed), none waits for another for ever (no deadlock), and nothing stays locked when a call returns, fails or is refused.",
 kind=["schedules", "fault_sequences", "inputs"], qtext="all interleavings of one step of the main loop with one request or save, and of two requests; every failing operation inside them",
 why="a race or a deadlock needs two threads at particular points; the tests run one",
 files=["oracle/oracle.go", "oracle/onchain.go", "api/api.go"],
 mech=[("Snapshot", "oracle/oracle.go"), ("AdvanceStateToNextSlot", "oracle/oracle.go"), ("SaveToJson", "oracle/oracle.go"), ("RefreshBeaconValidators", "oracle/onchain.go"), ("handleConfig", "api/api.go")],
 check=dict(files={"oracle": ["mainnode"] + ST + ["merkle", "chk", "persist", "fee", "threadops", "faults"], "api": ["env", "stats", "relay", "threads"]}, stubs=C17_STUBS + DISK_STUBS,
  assume=API_ASSUME[:2] + ["two threads at a time, each doing one step of the main loop or one request; the Go memory model: lock operations order, everything else does not",
   "a race found by the solver counts if the race detector of Go confirms it on the same inputs"],
  outside=["the counters of the metrics server and logging, which are synchronised by their libraries", "a request that takes a lock of another object while holding that of the oracle (none does)"],
  note="Both threads are executed symbolically from the same state, recording lock operations and accesses of every object reachable from the shared roots; the solver then looks for an order of the two sequences, respecting the locks, in which two conflicting accesses are adjacent or both threads wait. Trusts go/ssa, the engine's Go semantics and library models, and z3.",
  harnesses=[
   ("vC17Threads", "api", {}, {}, ["slot", "freeze", "save", "refresh", "look", "reconcile", "state", "signal", "statistics", "withdrawal"], "6 steps of the main loop (a slot with any block and event, a cleanup, a change of the fee) against 16 requests and the save at a signal", dict(budget=300)),
   ("vC17Requests", "api", {}, {}, ["state", "proof", "signal"], "any two requests"),
   ("vC17Locks", "oracle", {}, {}, ["done"], "12 calls that fail or are refused: slots out of order, changed configuration, a node or the disk failing at any operation, unreadable files"),
  ])),
dict(id="C18", title="Every block is classified by who it really paid, in every fork's format",
 statement="A slot without a block is a missed proposal. A block pays the pool exactly if its fee recipient is the pool, or its last transaction is a builder's payment (sent by the fee recipient or a whitelisted builder) that reaches the pool; otherwise it paid a wrong recipient. Its recorded reward is the builder's payment, or the tips if there is none or the pool is the fee recipient; slot, number, proposer, its key and withdrawal address are its own. Only data of that very block is accepted, whatever its fork.",
 kind=["inputs", "configurations"], qtext="all fee recipients, last transactions, amounts, events, credentials, networks and block formats from Bellatrix to Fulu",
 why="tests use some recorded mainnet blocks; the decision who gets banned or subscribed is over every combination of fee recipient, sender, recipient, amounts and fork",
 files=["oracle/block.go", "utils/utils.go"], mech=[("SummarizedBlock", "oracle/block.go"), ("GetSentRewardAndType", "oracle/block.go"), ("MevRewardInWei", "oracle/block.go"), ("SetConsensusBlock", "oracle/block.go")],
 check=dict(files=BL, note=NOTE + "Up to two transactions, all decoded and signed natively when a witness is replayed.",
  assume=["a transaction's sender is the one who signed it (ECDSA is uninterpreted)"], outside=["the hard coded mainnet slot 10400574 (see C01)"],
  harnesses=[
   ("vC18Classify", "oracle", dict(txs=2, events=1), dict(txs=2, events=2, fork=3), ["classified"], "any block with up to txs transactions and events EtherReceived events"),
   ("vC18Forks", "oracle", dict(txs=1, events=0, forks=5), dict(txs=2, events=0, forks=5), ["classified"], "the block formats of all forks"),
   ("vC18Missed", "oracle", {}, {}, ["missed"], "any missed slot"),
   ("vC18Attach", "oracle", {}, {}, ["attach"], "any slot, proposer and block number in each part of the block's data"),
  ])),
dict(id="C19", title="A vanilla reward is exactly the tips the block's transactions paid",
 statement="The reward recorded for a vanilla block is the sum over its transactions of gas used times the effective priority fee (EIP-1559; for legacy and access list transactions the price above the base fee), to the wei, for every transaction type of the current forks and every fork's block format. With missing, reordered or foreign receipts no reward is computed and an error is reported.",
 kind=["inputs"], qtext="all gas prices, fee caps, tips, base fees and gas amounts, all transaction types and forks",
 why="tests recompute a few real blocks; saturation at the fee cap and byte orders matter for particular values only",
 files=["oracle/block.go", "utils/utils.go"], mech=[("GetProposerTip", "oracle/block.go"), ("SumAndSaturate", "utils/utils.go"), ("GetBaseFeePerGas", "oracle/block.go")],
 check=dict(files=BL, note=NOTE,
  assume=["gas used of the block is the sum of its receipts, the header's base fee is the payload's, and no transaction pays less than the base fee"],
  harnesses=[
   ("vC19Tip", "oracle", dict(txs=2, words=4, bits=250), dict(txs=3, words=4, bits=250), ["tip"], "txs transactions of any type, prices < 2^250 wei, any base fee, all forks"),
   ("vC19Mismatch", "oracle", {}, {}, ["mismatch"], "up to two transactions and three receipts in any arrangement"),
  ])),
dict(id="C20", title="Withdrawal credentials yield an address exactly when they contain one",
 statement="Credentials of 32 bytes with prefix 0x01 or 0x02 followed by eleven zero bytes yield exactly the address in their last 20 bytes; any other credentials yield no address and are treated like BLS credentials, so nobody is credited for them; credentials of another length are refused. All the parsers in the code base agree.",
 kind=["inputs"], qtext="all 2^256 credentials and other lengths", why="tests try a few credentials; the money goes to whatever address is parsed",
 files=["oracle/oracle.go", "utils/utils.go"], mech=[("GetWithdrawalAndType", "oracle/oracle.go"), ("GetCompatibleAddressByte", "utils/utils.go")],
 check=dict(files=BL, note="Holds for all byte values of credentials of 32, 31, 33 and 0 bytes. Trusts go/ssa, the engine's Go semantics and library models and z3.",
  harnesses=[("vC20Credentials", "oracle", {}, {}, ["credentials"], "32 symbolic bytes")])),
dict(id="C21", title="Everything received except the block's own MEV reward is a donation",
 statement="The donations of a block are exactly the ether the contract reported as received in it, in order, minus one event of the amount of the builder's payment if that payment went to the pool. A missed slot has none.",
 kind=["inputs"], qtext="all blocks, all amounts and orders of EtherReceived events",
 why="equal amounts, several payments and their order decide whether a donation is dropped or a reward counted twice",
 files=["oracle/block.go"], mech=[("GetDonations", "oracle/block.go")],
 check=dict(files=BL, note=NOTE,
  assume=["every payment that reaches the pool emits EtherReceived (see the known finding for payments that fail)"],
  harnesses=[
   ("vC21Donations", "oracle", dict(txs=1, events=3), dict(txs=1, events=4), ["donations", "filtered"], "up to events EtherReceived events"),
   ("vC21Reverted", "oracle", {}, {}, [], "a builder's payment to the pool that was not received"),
  ])),
dict(id="C28", title="Each slot is processed from the complete data of exactly that slot",
 statement="For every slot the oracle collects the proposer duty, the proposer, the block or its absence, every pool event of the block in order, the validators named by subscriptions and unsubscriptions and, where the reward depends on them, header and receipts: all of exactly that slot, and enough to reach the state the whole block's data would give. If any part cannot be fetched or decoded after the retries, the oracle stops rather than go on with partial data.",
 kind=["inputs", "fault_sequences"], qtext="all blocks, sets of events, known or unknown validators, and failures of any single call or log",
 why="there is no test of the fetching at all: it needs two nodes; a forgotten receipt or a swallowed error only shows for the particular block",
 files=["oracle/onchain.go", "oracle/block.go"], mech=[("FetchFullBlock", "oracle/onchain.go"), ("GetEtherReceivedEvents", "oracle/onchain.go"), ("GetExecHeaderAndReceipts", "oracle/onchain.go"), ("GetSingleValidator", "oracle/onchain.go")],
 check=dict(files=NODE, stubs=NODE_STUBS, assume=NODE_ASSUME + ["every builder's payment to the pool emits EtherReceived (see C21)"],
  note=NOTE + "The clients' calls are replaced by a symbolic node; one call or log fails per run.",
  harnesses=[
   ("vC28Fetch", "oracle", dict(faults=1, txs=1, events=1, kinds=1, n_net=1, n_cred=2), dict(faults=1, txs=2, events=1, kinds=1, n_net=1, n_cred=2), ["fetched", "processed"], "one tracked validator, any block with up to txs transactions and an EtherReceived event"),
   ("vC28Faults", "oracle", dict(faults=4, txs=0, events=1, kinds=5, advance=0, n_net=1, n_cred=1, n_proposer=1), dict(faults=4, txs=1, events=1, kinds=5, advance=0, n_net=1, n_cred=1, n_proposer=1), ["fetched", "stopped"], "any one call failing once or for good, or any one log not decodable", dict(budget=120)),
   ("vC28Subs", "oracle", dict(faults=1, txs=0, events=0, kinds=1, kind=1, n_net=1, n_cred=1, n_feeRecipient=1), dict(faults=1, txs=0, events=0, kinds=1, kind=1, n_net=1, n_cred=2, n_feeRecipient=2), ["processed"], "one or two subscriptions in the block", dict(budget=120)),
   ("vC28Events", "oracle", dict(faults=1, txs=0, events=0, kinds=5, minkind=2, n_net=1, n_cred=1, n_feeRecipient=1), dict(faults=1, txs=0, events=1, kinds=5, minkind=2, n_net=1, n_cred=2, n_feeRecipient=1), ["processed"], "an unsubscription, a ban and an unban, or one of each parameter change"),
   ("vC28Again", "oracle", dict(again=1, faults=1, txs=1, events=0, kinds=1, n_net=1, n_cred=1, n_feeRecipient=1, n_to=2, n_signer=1), dict(again=1, faults=1, txs=1, events=1, kinds=1, n_net=1, n_cred=1, n_feeRecipient=1, n_to=2, n_signer=1), ["again", "fetched"], "two slots after one another, blocks by the same or different proposers, of up to one transaction; the first slot's data stays what it was"),
   ("vC28Again", "oracle", dict(again=1, faults=1, txs=1, events=0, kinds=1, kind=1, advance=0, n_net=1, n_cred=1, n_feeRecipient=1, n_to=1, n_signer=1, n_proposer=1), dict(again=1, faults=1, txs=1, events=0, kinds=1, kind=1, advance=0, n_net=1, n_cred=1, n_feeRecipient=1, n_to=1, n_signer=1), ["again", "fetched"], "the same with two subscriptions in each block, validators known or not"),
   ("vC28Again", "oracle", dict(again=1, faults=1, txs=0, events=0, kinds=5, minkind=3, n_net=1, n_cred=1, n_feeRecipient=1, n_to=1, n_signer=1, n_proposer=1), dict(again=1, faults=1, txs=0, events=1, kinds=5, minkind=3, n_net=1, n_cred=1, n_feeRecipient=1, n_to=1, n_signer=1, n_proposer=1), ["again", "fetched"], "the same with bans or parameter changes in the second block"),
  ])),
dict(id="C30", title="The proposer of a slot is the one the beacon chain assigned to it",
 statement="Whatever slots were asked for before and whatever the node answers, the duty used for a slot is the beacon chain's duty of that very slot, or an error is reported; a well formed answer always gives a duty, also in epoch 0, and no answer stops the oracle.",
 kind=["inputs", "histories"], qtext="all sequences of slots, all lengths and contents of the node's answers, failures in between",
 why="the cache of duties makes the answer depend on the history of requests; there is no test of it",
 files=["oracle/onchain.go"], mech=[("GetProposalDuty", "oracle/onchain.go")],
 check=dict(files=NODE, stubs=NODE_STUBS, assume=NODE_ASSUME,
  note="Holds for every epoch below 2^35, every first slot of the answer and the stated lengths and positions. Trusts go/ssa, the engine's Go semantics and library models and z3.",
  harnesses=[
   ("vC30Duty", "oracle", dict(steps=1), dict(steps=2), ["duty", "error"], "one request for any slot, answers of 32, 0, 31 or 33 duties from any slot on"),
   ("vC30Sequence", "oracle", dict(steps=3, offs=2, lens=2), dict(steps=3, offs=3, lens=3), ["duty", "error"], "three requests for the first or last slot of any epochs, answers of 32 or 0 duties from any slot on"),
  ])),
dict(id="C34", title="Only finalized checkpoints with balanced books are submitted, once and in order",
 statement="The main loop processes finalized slots only, one by one and in order, and only while both nodes are in sync. At every checkpoint with enough data it freezes and saves the state, after submitting its root if, and only if, it is not a dry run, the checkpoint directly follows the contract's last one and the oracle has not voted for it; a submitted checkpoint is saved once the contract has consolidated it. A checkpoint whose slot was processed before a stop is done first at the next start. When the books do not balance, or the pool holds less than it owes, or its report is refused, it stops before going on. No failure of a node makes it skip a slot, submit anything else, or crash.",
 kind=["histories", "fault_sequences", "inputs"], qtext="all sequences of finality and sync states, contract states, votes and consolidations by other oracles between any two steps, and failures of any single call",
 why="the loop has no tests: it never ends and needs two nodes and a contract; what it submits moves everyone's money",
 files=["main.go", "oracle/onchain.go", "oracle/oracle.go"], mech=[("mainLoop", "main.go"), ("UpdateContractMerkleRoot", "oracle/onchain.go"), ("AreNodesInSync", "oracle/onchain.go"), ("GetOnchainSlotAndRoot", "oracle/onchain.go"), ("RunOnchainReconciliation", "oracle/oracle.go")],
 check=dict(files={".": ["loop"], "oracle": ["mainnode"]}, stubs=LOOP_STUBS, assume=NODE_ASSUME + ["sleeping, the clock and the random delay are stand-ins", "a call of the contract or a node fails at most once per run; SaveToJson is a stand-in (see C14 and C15)"],
  outside=["rewards: the slots of these runs are without blocks (see C01 to C08 for their effect)"],
  note="Holds for every finalized slot < 2^41, every sync distance, every slot of the contract < 2^41 and every interleaving of the other oracles' votes within the stated number of rounds of the loop. Trusts go/ssa, the engine's Go semantics and library models (cross-checked natively on witnesses of every run) and z3.",
  harnesses=[
   ("vC34Loop", ".", dict(rounds=3, stops=0), dict(rounds=5, stops=0), ["loop", "processed", "saved", "submitted"], "rounds of the loop, checkpoints every 2 slots, 3 deployment slots, one validator or none, two sleeps", dict(budget=150)),
   ("vC34Loop", ".", dict(rounds=3, deployments=1), dict(rounds=5), ["loop", "processed", "saved", "submitted"], "the same, stopped before or after the freezing of the checkpoint, one deployment slot", dict(budget=150)),
   ("vC34Faults", ".", dict(rounds=2, size=1, faults=1, deployments=1, others=2, votes=2, accepts=3), dict(rounds=3, size=1, faults=1, deployments=1), ["loop", "processed", "saved", "submitted"], "the same with every slot a checkpoint and any one call failing", dict(budget=150)),
  ])),

dict(id="C05", title="Nothing claimable is ever taken back and no slot stops the oracle",
 statement="Whatever a slot contains, no validator's claimable (accumulated) rewards and no fees of the pool ever decrease, no balance is ever negative, and a validator's pending rewards only decrease by becoming claimable in full or by that validator leaving, failing or being banned from the pool. A tracked validator stays tracked, and no block, event or amount that others control makes the processing of a slot fail or stop the oracle.",
 kind=["inputs", "histories"], qtext="all states, blocks, events and amounts, under every reward rule",
 why="the contract pays cumulative balances, so a single decrease makes claims fail for ever, and a slot that stops the oracle stops it at every restart; both need particular amounts, statuses or credentials",
 files=["oracle/oracle.go", "oracle/block.go"],
 mech=[("AdvanceStateToNextSlot", "oracle/oracle.go"), ("increaseAllPendingRewards", "oracle/oracle.go"), ("ValidatorCleanup", "oracle/oracle.go"), ("consolidateBalance", "oracle/oracle.go")],
 check=dict(files={"oracle": ST + ["slot", "merkle", "chk", "determ", "mono"]}, note=NOTE,
  assume=["a donation next to a builder's payment has another amount than it (see C21)", "the beacon node returns exactly the requested validators, with positive effective balances"],
  harnesses=[
   ("vC05Slot", "oracle", dict(n=2, donation=0), dict(n=3, donation=0), ["slot"], B2 + "one block of any kind by any validator with any credentials"),
   ("vC05Slot", "oracle", dict(n=1, donation=1), dict(n=2, donation=1), ["slot"], B2 + "the same with a donation"),
   ("vC05Events", "oracle", dict(n=2, what=0), dict(n=3, what=0), ["slot"], B2 + "any subscription"),
   ("vC05Events", "oracle", dict(n=1, what=0, fill=40), dict(n=1, what=0, fill=100), ["slot"], FB + "any subscription"),
   ("vC05Events", "oracle", dict(n=2, what=1), dict(n=3, what=1), ["slot"], B2 + "any unsubscription"),
   ("vC05Events", "oracle", dict(n=1, what=1, fill=40), dict(n=1, what=1, fill=100), ["slot"], FB + "any unsubscription"),
   ("vC05Events", "oracle", dict(n=2, what=2), dict(n=3, what=2), ["slot"], B2 + "a ban and an unban"),
   ("vC05Events", "oracle", dict(n=1, what=2, fill=40), dict(n=1, what=2, fill=100), ["slot"], FB + "a ban and an unban"),
   ("vC05Cleanup", "oracle", dict(n=2, consols=1), dict(n=2, consols=2), ["slot"], B2 + "any beacon states and a pending consolidation"),
   ("vC05Cleanup", "oracle", dict(n=1, consols=1, fill=40), dict(n=1, consols=1, fill=100), ["slot"], FB + "any beacon states and a pending consolidation"),
  ])),
dict(id="C24", title="The statistics served are the sums of the state they describe",
 statement="The statistics endpoint counts every validator by its status, sums accumulated, pending, block, donation and 30 day rewards over exactly the blocks and validators of the state, and divides only by what is not zero. It answers for every state, is refused while the oracle is catching up, and changes nothing.",
 kind=["inputs", "histories"], qtext="all statuses and balances of the validators, all recorded blocks and donations, all sync distances",
 why="there is no test of the statistics; which blocks count and when nobody earns depends on the state",
 files=["api/api.go"], mech=[("handleMemoryStatistics", "api/api.go")],
 check=dict(files=API([]), stubs=API_STUBS, assume=API_ASSUME, note=ANOTE, outside=["latest_checkpoint_slot, which is the last processed slot"],
  harnesses=[("vC24Stats", "api", dict(n=2, blocks=2, donations=1), dict(n=3, blocks=2, donations=2), ["stats", "syncing"], "n validators, blocks proposed blocks, one missed and one wrong fee block, donations"),
   ("vC24Stats", "api", dict(n=1, blocks=1, donations=1, warm=1), dict(n=2, blocks=1, donations=1, warm=1), ["stats", "syncing"], EB + "the same with fewer validators and blocks")])),
dict(id="C25", title="An owner sees the validators of an address, events not yet finalized included",
 statement="The validators of a withdrawal address are exactly those tracked with that address and those of the beacon chain with it in their credentials, each with the status and pending rewards it will have once the subscriptions and unsubscriptions since the last processed block are finalized, applied block by block in order. The request is refused while syncing, for texts that are no address and when those events or the validators cannot be known; it never stops the oracle or changes its state.",
 kind=["inputs", "histories", "fault_sequences"], qtext="all statuses, balances, senders, deposits, blocks and validators of pending events, credentials and failures of a node",
 why="the overlay repeats the rules of the oracle; tests give it a few events in a fixed order",
 files=["api/api.go", "oracle/onchain.go"], mech=[("handleMemoryValidatorsByWithdrawal", "api/api.go"), ("ApplyNonFinalizedState", "api/api.go")],
 check=dict(files=API(["lookup", "overlay"]), stubs=API_STUBS, assume=API_ASSUME, note=ANOTE,
  harnesses=[
   ("vC25Overlay", "api", dict(subs=1, unsubs=0, newcomers=5, typed=2), dict(subs=1, unsubs=0, newcomers=5, typed=2, states=10), ["overlay", "failed"], "a subscription, one tracked validator, a validator with any kind of credentials"),
   ("vC25Overlay", "api", dict(subs=0, unsubs=1, states=1, newcomers=5, typed=2), dict(subs=0, unsubs=1, newcomers=5, typed=2), ["overlay", "failed"], "an unsubscription"),
   ("vC25Overlay", "api", dict(subs=1, unsubs=1, forget=0, states=1), dict(subs=1, unsubs=1, forget=0), ["overlay"], "a subscription and an unsubscription in any order"),
   ("vC25Overlay", "api", dict(subs=2, unsubs=0, forget=0, states=1), dict(subs=2, unsubs=1, forget=0, states=1), ["overlay"], "two subscriptions"),
   ("vC25Overlay", "api", dict(subs=0, unsubs=2, forget=0, states=1), dict(subs=1, unsubs=2, forget=0, states=1), ["overlay"], "two unsubscriptions"),
   ("vC25Overlay", "api", dict(subs=1, unsubs=0, n=2, addrs=2, states=1), dict(subs=1, unsubs=0, n=3, addrs=2, states=1), ["overlay"], "several tracked validators of several addresses"),
   ("vC25Overlay", "api", dict(subs=1, unsubs=0, newcomers=1, fail=1, states=1, forget=0), dict(subs=1, unsubs=1, newcomers=1, fail=1, states=1, forget=0), ["overlay", "failed"], "the events cannot be asked for or decoded"),
   ("vC25Overlay", "api", dict(n=0, subs=1, unsubs=0, forget=0, newcomers=5, typed=2), dict(n=0, subs=1, unsubs=1, forget=0, newcomers=5, typed=2), ["overlay", "failed", "none"], "no tracked validator"),
   ("vC25Overlay", "api", dict(subs=1, unsubs=0, states=1, warm=1), dict(subs=1, unsubs=1, states=1, forget=0, warm=1), ["overlay"], EB + "a subscription"),
   ("vC25Refuse", "api", {}, {}, ["answered"], "texts that are no address, syncing, unknown validators"),
  ])),
dict(id="C31", title="Validators are found by index, and only well formed requests are answered",
 statement="The list of validators shows each tracked validator once, as in the state; a lookup by index or by a list of indices shows exactly the tracked validators asked for, reports the others as not found, and refuses texts that are not lists of at most 100 numbers. Only 0x and 40 hexadecimal digits are an address and only 0x and 96 are a validator key. No request stops the oracle or changes its state, and the whole list and the lookup of one validator are not answered while it is catching up.",
 kind=["inputs"], qtext="all texts of the bounded lengths, all states of the bounded sizes",
 why="the texts come from anybody; the tests try a few well formed ones",
 files=["api/api.go"], mech=[("handleMemoryValidators", "api/api.go"), ("handleMemoryValidatorInfo", "api/api.go"), ("handleMemoryValidatorsByIndex", "api/api.go"), ("IsValidPubkey", "api/api.go"), ("IsValidAddress", "api/api.go")],
 check=dict(files=API(["lookup"]), stubs=API_STUBS, assume=API_ASSUME, note=ANOTE,
  harnesses=[
   ("vC31List", "api", dict(n=2), dict(n=3), ["listed", "syncing"], "n validators of arbitrary status and balances"),
   ("vC31Index", "api", dict(len=5), dict(len=7), ["found", "unknown", "invalid"], "any text of up to len bytes"),
   ("vC31Indices", "api", dict(count=2), dict(count=3), ["listed", "invalid"], "up to count entries: any number of one or of three digits, the largest number, one more, a negative one, no number, nothing"),
   ("vC31Indices", "api", dict(count=3, digits=1), dict(count=3, n=2, digits=1), ["listed", "invalid"], "up to count entries: any number of three digits, the largest number, one more, a negative one, no number, nothing"),
   ("vC31List", "api", dict(n=2, warm=1), dict(n=3, warm=1), ["listed", "syncing"], EB + "n validators"),
   ("vC31Index", "api", dict(len=5, warm=1), dict(len=6, warm=1), ["found", "unknown", "invalid"], EB + "any text of up to len bytes"),
   ("vC31Indices", "api", dict(count=2, warm=1, digits=1), dict(count=2, warm=1), ["listed", "invalid"], EB + "up to count entries"),
   ("vC31Limit", "api", {}, {}, ["too many", "listed"], "99, 100 and 101 entries: the same one, 61 different ones, or all different"),
   ("vC31Address", "api", {}, {}, ["address"], "any text of 42 bytes, and one more or less"),
   ("vC31Key", "api", {}, {}, ["key"], "any text of 98 bytes, and one more or less"),
  ])),
dict(id="C32", title="The proofs served are those that the contract accepts",
 statement="For an address with rewards in the last committed checkpoint the proof endpoint serves the leaf, the proof and the root of that checkpoint, the validators that the address had there, and the difference between what was accumulated and what the contract says was claimed. It only does so when the contract has consolidated exactly that checkpoint, with that root; otherwise, for unknown addresses, for texts that are no address and while syncing it reports an error. Nothing stops the oracle.",
 kind=["inputs", "histories"], qtext="all balances, claims, checkpoints, contract slots and roots, spellings of the address",
 why="a proof of another checkpoint than the contract's is rejected on chain; that needs a contract that is ahead or behind",
 files=["api/api.go", "oracle/onchain.go"], mech=[("handleOnchainMerkleProof", "api/api.go"), ("OracleReady", "api/api.go"), ("GetContractClaimedBalance", "oracle/onchain.go")],
 check=dict(files=API(["proof"]), stubs=API_STUBS, assume=API_ASSUME, note=ANOTE,
  harnesses=[
   ("vC32Proof", "api", dict(n=2, addrs=2), dict(n=3, addrs=2), ["proof", "mismatch", "unknown"], "n validators of up to two addresses"),
   ("vC32Proof", "api", dict(n=1), dict(n=2), ["proof", "mismatch", "unknown"], "one address"),
   ("vC32Proof", "api", dict(n=1, warm=1), dict(n=2, warm=1), ["proof", "mismatch", "unknown"], EB + "one address, with an earlier checkpoint"),
   ("vC32Syncing", "api", {}, {}, ["syncing"], "any sync distance"),
  ])),
dict(id="C33", title="Everything else that is served is what the oracle knows",
 statement="The lists of blocks and donations, the fees, the configuration, the position of the oracle and the registration of a validator in the relays show what the state, the configuration, the nodes and the relays say, all of it and nothing else; a failing node or relay is reported as such. Every documented path is answered with its own view, to reading requests only. The state that is served can be loaded by another oracle, which then holds exactly the same state.",
 kind=["inputs", "fault_sequences"], qtext="all recorded blocks, states, positions, answers of relays and nodes, and failures of any of them",
 why="the endpoints have no tests with failing nodes, and the served state is what new oracles start from",
 files=["api/api.go"], mech=[("handleMemoryAllBlocks", "api/api.go"), ("handleMemoryDonations", "api/api.go"), ("handleStatus", "api/api.go"), ("handleState", "api/api.go"), ("handleValidatorRelayers", "api/api.go"), ("handleConfig", "api/api.go")],
 check=dict(files=API(["views", "status", "overlay", "lookup", "routes"], ["mainnode"] + ST + ["merkle", "chk", "persist"]), stubs=C33_STUBS, assume=API_ASSUME + ["the finalized slot is not before the last processed one"], note=ANOTE,
  harnesses=[
   ("vC33Blocks", "api", {}, dict(each=3), ["blocks"], "two blocks of each kind, two donations"),
   ("vC33Fees", "api", {}, {}, ["fees"], "any fees and configuration"),
   ("vC33State", "api", dict(n=1), dict(n=2), ["loaded"], "n validators, with and without a committed checkpoint"),
   ("vC33Relays", "api", {}, dict(relays=3), ["relays", "broken"], "two relays that know the validator, do not, fail or answer nonsense"),
   ("vC33Key", "api", {}, {}, ["key"], "texts that are no validator key"),
   ("vC33Routes", "api", {}, {}, ["served", "refused", "unknown"], "every documented path, five methods, known and unknown indices, through the server's router and middlewares"),
   ("vC33Blocks", "api", dict(warm=1), dict(each=3, warm=1), ["blocks"], EB + "two blocks of each kind, two donations"),
   ("vC33Fees", "api", dict(warm=1), dict(warm=1), ["fees"], EB + "any fees and configuration"),
   ("vC33State", "api", dict(n=1, warm=1), dict(n=2, warm=1), ["loaded"], EB + "n validators"),
   ("vC33Relays", "api", dict(warm=1), dict(relays=3, warm=1), ["relays", "broken"], EB + "two relays that answered otherwise before"),
   ("vC33Status", "api", dict(warm=1), dict(warm=1), ["status", "failed"], EB + "any position, any failure of one call"),
   ("vC33Status", "api", {}, {}, ["status", "failed"], "any position, any failure of one call"),
  ])),
dict(id="C27", title="Only complete and consistent settings are accepted, as given",
 statement="A start without dry run needs a key file and its password, a dry run accepts neither; the pool has to be an address and the relays a non-empty list of https URLs. Anything else is refused with an error. Whatever is accepted reaches the oracle exactly as it was given.",
 kind=["configurations"], qtext="all texts of the bounded lengths and all numbers, every combination of given and missing settings",
 why="the settings decide which key signs and which pool is served; the tests do not parse any",
 files=["config/config.go"], mech=[("NewCliConfig", "config/config.go")],
 check=dict(files={"config": ["cli"]}, stubs=CLI_STUBS, note=NOTE, assume=["the flag package hands over the given values; it is a stand-in"],
  outside=["the list of relays: 16 texts; the port that the metrics are served at"],
  harnesses=[("vC27Cli", "config", {}, {}, ["accepted", "refused"], "texts of 0 or 2 bytes, pool addresses of 0 to 64 bytes, 16 lists of relays, all numbers")])),
dict(id="C29", title="The initial fee is the one the pool was initialised with",
 statement="The fee of the pool at its deployment is the one passed to the first call of initialize of the pool in the deployment block, whether it was called directly or in the creation of the proxy, in which it follows arbitrary code. Other contracts, other calls, transfers, creations without the call, and anything in front of it change nothing, and without an initialisation there is no fee and, unless the network has a published one, no start.",
 kind=["inputs"], qtext="all fees, codes and calls of the bounded lengths, all sequences of transactions",
 why="every oracle derives the fee from this one block at every start: whoever decodes another one computes other roots; the test decodes two given transactions",
 files=["oracle/onchain.go"], mech=[("decodeInitialPoolFee", "oracle/onchain.go"), ("findInitializeInCreationData", "oracle/onchain.go")],
 check=dict(files={"oracle": ["state", "mainnode", "conf"]}, stubs=START_STUBS, note=NOTE,
  assume=["the code in front of the call in a proxy's creation does not contain the call's selector, except where it is followed by arguments that cannot be decoded",
          "arguments are decoded as by go-ethereum's abi package, for which there is a model that agrees with it on random inputs"],
  harnesses=[
   ("vC29Fee", "oracle", dict(txs=1, prefix=5, chains=3), dict(txs=1, prefix=8, chains=3), ["decoded", "none", "published"], "a transaction on three networks, with up to prefix-1 bytes of code in front"),
   ("vC29Fee", "oracle", dict(txs=2, prefix=1), dict(txs=2, prefix=2), ["decoded", "none"], "two transactions"),
  ])),
dict(id="C35", title="The oracle starts from what the contract, the nodes and the operator say",
 statement="It only connects to two nodes of the same chain, and only runs on a known network. It starts at the slot of the deployment, which the consensus chain has to confirm to hold the block the contract was deployed in; its checkpoints, collateral and fee recipient are those of the contract, its fee the one the pool was initialised with or the published one of the network, everything else is what the operator set. If any of it cannot be known, it does not start.",
 kind=["configurations", "fault_sequences"], qtext="all chains, genesis times, deployment blocks and times, parameters of the contract, and failures of any single call",
 why="two nodes of different chains, or a slot off by one, give an oracle that runs and votes for other roots than all others",
 files=["oracle/onchain.go"], mech=[("NewOnchain", "oracle/onchain.go"), ("GetConfigFromContract", "oracle/onchain.go"), ("GetSlotByBlock", "oracle/onchain.go")],
 check=dict(files={"oracle": ["state", "mainnode", "conf"]}, stubs=START_STUBS, note=NOTE, assume=NODE_ASSUME + ["times after the genesis, before year 2514"],
  harnesses=[
   ("vC35Connect", "oracle", {}, {}, ["connected", "refused"], "any two chains, any failing call"),
   ("vC35Config", "oracle", {}, {}, ["started", "refused"], "five networks, any failing call, one trouble at a time"),
   ("vC35Slot", "oracle", {}, {}, ["found", "refused"], "any block number and times < 2^34, any failing call"),
  ])),
dict(id="C36", title="A start continues from a sound state and a stop saves it",
 statement="An oracle that is to vote starts only with a key it could decrypt, whose account is whitelisted and funded; a dry run uses no key. It continues from the state of the given provider, else from the one on disk, else from the deployment, and a state that is broken or not delivered stops it. An oracle that votes never continues beyond the contract's checkpoint: it goes back to the newest saved state at or at most two checkpoints before it, or stops. Told to stop by a signal, it saves its state, and the next start continues exactly there.",
 kind=["configurations", "histories", "fault_sequences"], qtext="all combinations of saved and provided states, contract slots, balances, keys, signals and failures of any single call",
 why="main has no tests; starting from the wrong state gives different roots, and stopping without saving means processing months again",
 files=["main.go", "oracle/oracle.go", "api/api.go"], mech=[("main", "main.go"), ("LoadFromJson", "oracle/oracle.go"), ("LoadFromBytes", "oracle/oracle.go"), ("LoadGivenState", "oracle/oracle.go")],
 check=dict(files={".": ["start"], "oracle": ["mainnode"]}, stubs=MAIN_STUBS, note=NOTE,
  assume=NODE_ASSUME + ["the main loop, the metrics and the server are stand-ins (see C34, C24 to C33), and so is the disk"],
  outside=["the connection to the nodes and the configuration of the contract (see C35) and the decryption of the key"],
  harnesses=[
   ("vC36Start", ".", {}, {}, ["continues", "goes back", "stopped"], "no, one or two saved checkpoints, five kinds of providers, any slot of the contract < 2^40"),
   ("vC36Start", ".", dict(fails=2, providers=2, broken=1), dict(fails=2), ["continues", "stopped"], "the same with any single call failing"),
  ])),
dict(id="C37", title="Reads of the contract and the nodes are exact, of the right block, or errors",
 statement="Every value that the oracle decides on is what the contract or the node holds for the account, slot or block asked for, and not a pending, rounded, older or somebody else's one: members, votes and reports, quorum, checkpoint, collateral, fee, root and claimed balances, balances of accounts, validators and pending consolidations of a slot, the finalized head and blocks. A call that fails is tried as often as configured, and when it fails all the same, or the answer is incomplete or of another validator, the read is an error and never a value. The nodes count as synced only if the execution node is and the consensus node is not behind.",
 kind=["inputs", "fault_sequences"], qtext="all values of the contract, slots, accounts and indices, and every number of failures of any call up to the attempts configured",
 why="the readers need a node, so no test runs them against one that fails; a wrong value here is consensus on a wrong root, or a vote for it",
 files=["oracle/onchain.go"], mech=[(x, "oracle/onchain.go") for x in ["IsAddressWhitelisted", "GetAddressToVotedReport", "GetOnchainSlotAndRoot", "GetRewardsRoot", "GetContractClaimedBalance", "GetClaimedPerWithdrawalAddress", "AreNodesInSync", "GetSetOfValidators", "GetSingleValidator", "GetFinalizedValidators", "RefreshBeaconValidators", "GetPendingConsolidations", "GetRetryOpts"]],
 check=dict(files={"oracle": ["state", "reads"]}, stubs=C37_STUBS, note=NOTE, assume=["the two nodes answer through go-eth2-client, go-ethereum and the contract's bindings as documented; those calls are stand-ins in the check"],
  outside=["the encoding of the calls on the wire", "a node that answers with more validators than it was asked for"],
  harnesses=[
   ("vC37Contract", "oracle", {}, {}, ["answer", "error"], "every getter of the contract, attempts set to 1 or 2, or asked for, any number of failures of any of its calls"),
   ("vC37Contract", "oracle", dict(again=1), {}, ["again"], "the same reads made twice, everything but the deployment block different the second time, no failures"),
   ("vC37Balances", "oracle", {}, {}, ["answer", "error"], "any balances and blocks, two addresses, any failures"),
   ("vC37Balances", "oracle", dict(again=1), {}, ["again"], "the same reads made twice, everything but the deployment block different the second time, no failures"),
   ("vC37Sync", "oracle", {}, {}, ["answer", "error"], "any distance of the consensus node, any failures"),
   ("vC37Sync", "oracle", dict(again=1), {}, ["again"], "the same reads made twice, everything but the deployment block different the second time, no failures"),
   ("vC37Validators", "oracle", {}, {}, ["answer", "stop"], "any slot and indices, none to three asked for, missing ones and another validator's; the refresh of all validators"),
   ("vC37Validators", "oracle", dict(again=1), {}, ["again"], "the same reads made twice, everything but the deployment block different the second time, no failures"),
   ("vC37Heads", "oracle", {}, {}, ["answer", "error"], "any head and block, any failures"),
   ("vC37Heads", "oracle", dict(again=1), {}, ["again"], "the same reads made twice, everything but the deployment block different the second time, no failures"),
   ("vC37Consolidations", "oracle", {}, {}, ["answer", "error"], "up to two consolidations with any indices, any slot, broken answers"),
   ("vC37Consolidations", "oracle", dict(again=1), {}, ["again"], "the same reads made twice, everything but the deployment block different the second time, no failures"),
  ])),
dict(id="C38", title="A report is one exact transaction, and counts only when it was mined",
 statement="Reporting a slot and root sends exactly one transaction: to the pool, on the chain of the node, signed with the updater's key, with the updater's next nonce, no ether, and exactly the slot and the 32 bytes of the root. It is reported as done only if the transaction was mined and succeeded; a failed call, a root that is none, a transaction that was refused or that was not mined in time is an error, and the oracle keeps running.",
 kind=["inputs", "fault_sequences"], qtext="all slots, roots, nonces and chains, the failure of any call, every end of the transaction",
 why="no test sends a report; one that wrongly counts as done, or of another root, is a missed or wrong vote",
 files=["oracle/onchain.go"], mech=[("UpdateContractMerkleRoot", "oracle/onchain.go")],
 check=dict(files={"oracle": ["state", "submit"]}, stubs=C38_STUBS, note=NOTE, assume=["go-ethereum signs and sends what it is given; its calls are stand-ins in the check"],
  outside=["a transaction that is mined after the oracle stopped waiting for it: the next round sees the vote in the contract"],
  harnesses=[("vC38Submit", "oracle", {}, {}, ["accepted", "refused", "timeout", "failed", "bad root"], "any slot and 32-byte root in five spellings, any nonce and chain, any single failing call, every end"),
   ("vC38Submit", "oracle", dict(again=1), {}, ["again", "accepted", "refused", "timeout", "failed", "bad root"], "the same after an earlier report by the same oracle, of another slot, root and nonce, mined, refused or given up on")])),
]
