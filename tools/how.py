# How each property is decided (generated into DESIGN.md by gen.py).
HOW = {
"C01": "One call of `AdvanceStateToNextSlot` from an arbitrary ledger (statuses, balances, fee, slot and fork are symbolic) with a symbolic full block. Oracle: a second sum, over the events and the block as the harness built them, of the wei that entered the pool; liabilities after = before + that sum, as one SMT equality over integers per path.",
"C02": "`increaseAllPendingRewards` and a slot with one or two amounts; oracle: the published rule written again in the harness (share = amount*fee/10000 per fork's formula, remainder to the pool, effective balance weights after Electra), compared per validator.",
"C03": "The same slot, checkpoint or cleanup is executed twice from the same symbolic state with every iteration order of the maps made explicit (the engine forks over the orders); all fields of both results, and the roots as uninterpreted keccak terms, are compared.",
"C04": "One proposal of each kind; oracle: the documented transition table (status x kind), balances moved, exactly one record in exactly one list.",
"C05": "One slot from an arbitrary ledger under `vTry`, which turns panics and log.Fatal into values: nothing decreases, nothing is negative, nothing is untracked, and no input makes the slot fail. One known finding (the rule before fork 1).",
"C06": "One and two subscription events with symbolic validator index, sender, collateral and beacon data; oracle: the documented conditions as one boolean formula, and the exact balances in either case.",
"C07": "One and two unsubscriptions; oracle as for C06, the shared amount by the rule of C02.",
"C08": "Bans and unbans; and a whole block with any subset of events, whose result is compared with a reference model that applies subscriptions, block, unsubscriptions, donations, bans, unbans one after another.",
"C09": "`OrderByWithdrawalAddress`/`AggregateValidatorsIndexes` over symbolic balances and differently spelled addresses: leaves compared with a second aggregation. Two known findings.",
"C10": "`FreezeCheckpoint`: every stored proof is verified by the contract's algorithm (sorted pair keccak, keccak is an uninterpreted injective function) against the published root, with the leaf encoding of the contract.",
"C11": "Freeze, a further slot with any event, freeze again; the first checkpoint is compared field by field with copies taken before, and for aliasing with the live state by mutation.",
"C12": "One call with any pair of position and block slot: accepted exactly when it is the next; otherwise the whole state is compared with a copy.",
"C13": "`IsCheckpoint` for all 64 bit values against the definition with unbounded integers.",
"C14": "`SaveToJson`/`LoadFromJson` through the modelled disk and encoding/json as a tree whose leaves are symbolic (so decoding rules, tags, omitted fields and number/string confusions are real); sha256 is uninterpreted. One saved field at a time is replaced by a different symbolic value.",
"C15": "File operations are numbered and the crash point (or the failing operation) is a symbolic choice; after it only what was renamed or fully written survives in the model (and, if it is a power failure, only what was flushed), and the next start runs on that disk. Counterexamples are replayed with real files in a scratch directory.",
"C16": "A block with parameter events of symbolic values at a symbolic slot and network against the schedule as published; loading saved states of any fee and slot.",
"C17": "Two threads: each is executed symbolically alone, recording memory accesses, lock operations and what orders them; then every pair of conflicting accesses and every cycle of waits is a query over the order variables of an SMT encoding of all schedules. No sampling of schedules. Lock leaks are checked on every return, error and panic path.",
"C18": "`NewFullBlock`, its setters and `SummarizedBlock` over blocks with symbolic fee recipient, transactions (to, value, sender by ECDSA model), events and credentials, in all forks' formats; oracle: the classification of the statement as a formula.",
"C19": "`GetProposerTip` over symbolic transactions of every type and receipts; oracle: the sum over unbounded integers; receipts permuted, dropped or foreign have to be refused.",
"C20": "32 symbolic bytes through every parser of credentials; oracle: the definition, and agreement of the parsers.",
"C21": "`GetDonations` over symbolic events; oracle: the list with the builder's payment removed once. One known finding.",
"C22": "`IsOracleInSyncWithChain` for symbolic slots and roots.",
"C23": "Both reconciliations over symbolic ledgers, against sums of the harness; `GetUniqueWithdrawalAddresses` over spellings.",
"C24": "The handler itself runs (request, JSON answer decoded as a tree); every served number is compared with a sum of the harness.",
"C25": "The handler with symbolic events served by the stand-in of the node; oracle: the events applied in block order to a model of the validators.",
"C26": "`ValidatorCleanup` in a slot with symbolic beacon states and consolidations; oracle: a reference of the documented rule including the one final split.",
"C27": "`NewCliConfig` with symbolic texts and numbers behind the flag package.",
"C28": "`FetchFullBlock` (with `GetProposalDuty`, events, receipts) against stand-ins of the two nodes whose answers are symbolic and which check what they are asked for; the outcome of processing what was fetched is compared with that of processing the complete data. Failure point and number of failures are symbolic choices. Variants fetch two slots in sequence: the second is not mixed with the first, and the first stays what it was.",
"C29": "`decodeInitialPoolFee`/`findInitializeInCreationData` over symbolic call data; oracle: how the transactions were built. The selector comparison and abi decoding are executed or modelled byte by byte.",
"C30": "`GetProposalDuty` with its cache over one to three symbolic requests and any shape of answers.",
"C31": "Handlers with symbolic texts (bytes) and lists; oracle: the grammar of the statement.",
"C32": "Handler with a symbolic contract state and checkpoints; served leaf, proof and root compared with the frozen ones and verified as in C10.",
"C33": "Handlers over symbolic states; the served state is loaded by a second oracle and compared.",
"C34": "`mainLoop` itself, stepped by stand-ins for the clock and the nodes; a monitor follows every call in order (processed slots, submissions, saves, stops, a checkpoint left over from the run before) and asserts the protocol; failing call is a symbolic choice.",
"C35": "`NewOnchain`, `GetConfigFromContract`, `GetSlotByBlock` with symbolic answers; every field of the resulting configuration compared, each failure has to stop the start.",
"C36": "`main` itself up to the loop (a stand-in), with symbolic saved states, provider answers, keys, balances; monitored as in C34. The saved state at a signal is loaded again.",
"C37": "Every reader of onchain.go against stand-ins that check block, account and options of each call and fail a symbolic number of times; the retry options are the real ones (attempts are read from them). Variants read twice, with another block, account or answer in between.",
"C38": "`UpdateContractMerkleRoot` against stand-ins that record what is signed and sent; the end of the transaction (mined, failed, timed out, at the deadline) is symbolic. A variant sends two reports in sequence: the second one stands on the chain of then, not of the first.",
}
