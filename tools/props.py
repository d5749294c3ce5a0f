"""Source of properties.jsonl and of the MANIFEST entries: P(id, title, statement, over, quantifier, why tests cannot, files, mechanism, state)."""
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None},
    })


IN, HI, CF, PR = "inputs", "histories", "configurations", "programs"
MB = "contracts/core/mailbox/src/"
MSG = "packages/interface/src/types/message.rs"

P("P01", "A message is processed at most once",
  "A mailbox hands over any one message at most once: processing a message whose id was processed before fails and changes nothing, and the delivered query answers true for an id exactly when a message with that id was processed. The id is the keccak-256 hash of the complete encoded message.",
  [IN, HI], "every message, metadata and caller, after every history of calls to the mailbox",
  "The tests process two or three fixed messages once each; a replay that slips through on another body, nonce, origin or after another call is not sampled.",
  [MB + "execute.rs", MB + "state.rs", MB + "query.rs", MSG], [("delivery table checked before and written by process", MB + "execute.rs: process"), ("message id", MSG + ": Message::id")],
  [("deliveries", "ids already processed", MB + "state.rs")], ["mailbox execute process", "mailbox query message_delivered"])
P("P02", "No message is delivered without its security module accepting it",
  "Processing succeeds only for a message of the supported version whose destination is this chain's domain, and only after one security module answered that it accepts exactly the submitted metadata and message. That module is the one the recipient names for itself when asked, and the mailbox's default module when the recipient names none.",
  [IN, HI, CF], "every message, metadata, recipient answer and mailbox configuration",
  "The tests stub one module and a handful of messages; whether some path reaches the recipient without the right module's acceptance is a question about all paths.",
  [MB + "execute.rs", MB + "state.rs", "packages/interface/src/ism/mod.rs"], [("version, destination and verification checks", MB + "execute.rs: process"), ("recipient module query", "packages/interface/src/ism/mod.rs: recipient"), ("verification query", "packages/interface/src/ism/mod.rs: verify")],
  [("config", "default module, local domain", MB + "state.rs")], ["mailbox execute process"])
P("P03", "The recipient gets the verified message unaltered, once, or all is undone",
  "A successful processing call makes exactly one call, to the contract the message names as recipient, carrying the message's origin domain, sender and body byte for byte and no funds. If the recipient refuses, the whole processing call fails, so the message can be delivered later.",
  [IN, CF], "every message and prefix configuration",
  "Tests compare one delivered call for fixed inputs.",
  [MB + "execute.rs", "packages/interface/src/core/mod.rs"], [("handle message", MB + "execute.rs: process"), ("recipient address", "packages/interface/src/types/bech32.rs")], observe=["messages of the mailbox's process response"])
P("P04", "Dispatched messages get gapless unique nonces and the reported id is theirs",
  "Every successful dispatch uses the current nonce, raises it by exactly one, and returns and records as latest dispatched the id of the very message handed to the hooks. Nothing else changes the nonce or the latest id, and a new mailbox starts at nonce zero.",
  [IN, HI], "every dispatch in every history of mailbox calls",
  "Tests dispatch once from a fresh mailbox; uniqueness over a history follows only from every entry point's effect on the counter.",
  [MB + "execute.rs", MB + "state.rs", MB + "contract.rs"], [("nonce increment and latest id", MB + "execute.rs: dispatch")],
  [("nonce", "next nonce", MB + "state.rs"), ("latest_dispatched_id", "id of the last dispatched message", MB + "state.rs")], ["mailbox dispatch response data", "nonce and latest dispatched id queries"])
P("P05", "A dispatched message says truthfully who sent what to whom",
  "The message handed to the hooks consists of the protocol version, the current nonce, this chain's configured domain, the calling account's own address, and the requested destination, recipient and body, in the documented layout; the dispatch event publishes the same bytes and id. A recipient that is not 32 bytes long is refused.",
  [IN, HI, CF], "every caller, destination, recipient, body and configuration",
  "Tests compare one encoding; forging the sender or truncating a field on other inputs is not sampled.",
  [MB + "execute.rs", MSG, MB + "event.rs"], [("message construction", "packages/interface/src/core/mailbox.rs: DispatchMsg"), ("encoding", MSG)], observe=["dispatch event", "messages of the dispatch response"])
P("P06", "Dispatch pays every hook, and never keeps or invents funds",
  "A successful dispatch calls exactly two hooks with the dispatched message and the caller's metadata: first the required hook with exactly the funds it quoted for them, then the hook the caller chose, or else the default, with everything else the caller attached. Dispatch fails if the attached funds do not cover the required hook's quote, and a failing hook fails the dispatch.",
  [IN, CF], "every quote, set of attached coins, hook choice and metadata",
  "Three fund combinations are tested; arithmetic over several denominations, repeated coins and zero amounts is not.",
  [MB + "execute.rs"], [("fund split", MB + "execute.rs: dispatch"), ("hook quote", "packages/interface/src/hook/mod.rs")], observe=["messages and funds of the dispatch response"])
P("P07", "The mailbox's dispatch quote is what the hooks would charge",
  "The fees the mailbox quotes for a dispatch are the sum of what the required hook and the hook that dispatch would use quote for the message that a dispatch by the given sender would produce now, with or without a chosen hook and metadata; it answers whenever both hooks do.",
  [IN, CF], "every sender, dispatch request and hook answer",
  "No test compares the quote with the dispatch for more than one fixed message.",
  [MB + "query.rs", MB + "execute.rs"], [("quote", MB + "query.rs: quote_dispatch")], observe=["mailbox query quote_dispatch"])
P("P08", "Only the owner can change how any contract is configured",
  "In every contract of the system, a call that changes configuration (default module and hooks, routes, validators, thresholds, hook and module lists, fees, gas settings, prices, beneficiaries, mailbox addresses, pause state) succeeds only when made by the contract's current owner. The calls open to everyone change nothing but the state their operation is about.",
  [IN, HI, PR], "every caller and call on every contract, after every history",
  "Per-contract tests try one stranger on some of the calls; that no call of any contract lacks the check is a statement about all of them.",
  ["contracts", "packages"], [("owner checks", "every contract's execute entry"), ("ownership", "packages/ownable/src/lib.rs")], [("owner", "current owner", "packages/ownable/src/lib.rs")], ["all execute entry points"])
P("P09", "Ownership moves only by a completed two-step handover",
  "A contract's owner changes only when an account the current owner nominated claims ownership itself. The owner can nominate only while no nomination is pending and can withdraw a pending one; nobody else can nominate, withdraw or claim, and the ownership reports answer exactly the stored owner and nominee. Instantiation stores the validated initial owner.",
  [IN, HI], "every sequence of ownership calls by any accounts on every owned contract",
  "Tests of the ownership package walk a few sequences; the wiring in each contract and mixed histories are not covered.",
  ["packages/ownable/src/lib.rs", "contracts"], [("init, revoke, claim", "packages/ownable/src/lib.rs: handle")], [("owner", "", "packages/ownable/src/lib.rs"), ("pending_owner", "", "packages/ownable/src/lib.rs")], ["ownership calls and queries of every contract"])
P("P10", "Pausing stops exactly what it guards",
  "While a pausable hook is paused no message passes it, and while a pausable security module is paused it accepts no message; when not paused both let everything through. Only the owner can pause or release, only from the opposite state, and the status report tells the stored state.",
  [IN, HI], "every message, caller and history of pause and release calls",
  "Tests check one call in each state.",
  ["packages/pausable/src/lib.rs", "contracts/hooks/pausable/src/lib.rs", "contracts/isms/pausable/src/lib.rs"], [("pause flag", "packages/pausable/src/lib.rs")], [("pause", "stored flag", "packages/pausable/src/lib.rs")], ["post dispatch of the hook", "verify of the module", "pause info"])
P("P11", "Multisig verification needs a threshold of distinct enrolled signers",
  "The multisig module accepts a message only if at least the threshold configured for its origin of distinct validators enrolled for that origin signed its digest; one validator never counts twice, however often its signature is repeated. With that many valid signatures among the submitted ones it does accept.",
  [IN, CF], "every metadata length and order of signatures, validator set and threshold",
  "Tests use two or three fixed signature sets; duplicates, orders and mixtures of valid and foreign signatures are unbounded.",
  ["contracts/isms/multisig/src/query.rs", "packages/interface/src/types/metadata.rs"], [("verification loop", "contracts/isms/multisig/src/query.rs: verify_message"), ("metadata split", "packages/interface/src/types/metadata.rs: MessageIdMultisigIsmMetadata")],
  [("validators", "enrolled set per domain", "contracts/isms/multisig/src/state.rs"), ("threshold", "per domain", "contracts/isms/multisig/src/state.rs")], ["multisig module verify query"])
P("P12", "A signature only counts for the message and checkpoint it was made for",
  "Signatures are recovered over the digest of this message's origin domain, the metadata's merkle tree address, root and index, and the id of the complete message, with the set and threshold of the message's own origin. A signer is identified by the address derived from the recovered key in the documented way.",
  [IN], "every message and metadata",
  "Tests use precomputed vectors; a field left out of the digest is invisible to a vector that keeps it constant.",
  ["contracts/isms/multisig/src/query.rs", "packages/interface/src/types/crypto.rs", "packages/interface/src/types/metadata.rs"], [("digest", "packages/interface/src/types/crypto.rs: multisig hashes"), ("address derivation", "packages/interface/src/types/crypto.rs: eth_addr")], observe=["multisig module verify query"])
P("P13", "Enrolment only accepts usable validator sets and reports them truthfully",
  "Setting a domain's validators succeeds only with twenty-byte addresses and a threshold between one and their number, and replaces exactly that domain's set and threshold; unsetting removes exactly that domain's. The verification info, enrolled validators and threshold reports answer the stored set and threshold for the domain asked about.",
  [IN, HI], "every sequence of set and unset calls and every domain",
  "Tests set one domain; interference between domains and boundary thresholds are not sampled.",
  ["contracts/isms/multisig/src/execute.rs", "contracts/isms/multisig/src/query.rs", "contracts/isms/multisig/src/contract.rs"], [("set and unset", "contracts/isms/multisig/src/contract.rs: execute")], observe=["multisig module execute and queries"])
P("P14", "Aggregate verification needs the threshold of distinct modules to accept",
  "The aggregation module accepts a message only if at least its threshold of distinct configured modules, each asked about this message with its own part of the metadata, answered that they accept; with that many acceptances it does accept. Its threshold is always between one and the number of configured modules.",
  [IN, HI, CF], "every module list, threshold, metadata and combination of answers",
  "Tests try a few answer patterns; order, duplicates, early stop and boundary thresholds are not exhausted.",
  ["contracts/isms/aggregate/src/lib.rs", "packages/interface/src/types/metadata.rs"], [("verification loop", "contracts/isms/aggregate/src/lib.rs: verify"), ("metadata split", "packages/interface/src/types/metadata.rs: AggregateMetadata::from_hex")],
  [("isms", "modules", "contracts/isms/aggregate/src/state.rs"), ("threshold", "", "contracts/isms/aggregate/src/state.rs")], ["aggregate module verify query"])
P("P15", "The routing module answers for a message's origin, and only through it",
  "The routing module's verdict and verification info are exactly the answers of the module registered for the message's origin domain to the same question; without one it fails. The registrations change only by the owner's set and unset calls, for exactly the named domains and with valid addresses.",
  [IN, HI, CF], "every message, origin, registration history and module answer",
  "Tests register one or two domains.",
  ["contracts/isms/routing/src/contract.rs"], [("routing", "contracts/isms/routing/src/contract.rs: query"), ("registration", "contracts/isms/routing/src/contract.rs: execute")], [("modules", "module per origin", "contracts/isms/routing/src/state.rs")], ["routing module queries"])
P("P23", "Only the latest dispatched message enters the merkle tree, under its own id",
  "The merkle hook adds a leaf only for the message its configured mailbox reports as its latest dispatched, adds exactly the id of that message, and publishes the leaf's position; it refuses when the tree is full. The tree starts empty and nothing else changes it.",
  [IN, HI], "every message, caller and history of insertions",
  "Tests insert a few fixed messages.",
  ["contracts/hooks/merkle/src/lib.rs", "packages/interface/src/types/merkle.rs"], [("post dispatch", "contracts/hooks/merkle/src/lib.rs: execute")], [("message_tree", "the tree", "contracts/hooks/merkle/src/lib.rs")], ["merkle hook post dispatch, its events and queries"])
P("P24", "The merkle hook's root is the root of the depth-32 tree of its leaves",
  "After any number of insertions the reported root, tree, count and checkpoint are those of the depth-32 incremental keccak merkle tree over the inserted leaves in order, with empty positions counting as zero leaves. The checkpoint's index is the position of the last leaf. A tree with room accepts any leaf, and a leaf with its 32 siblings and position folds to exactly that root.",
  [IN, HI], "every sequence of up to 2^32-1 leaves",
  "Test vectors stop at some sixteen leaves; 27 of the 32 levels are never exercised.",
  ["packages/interface/src/types/merkle.rs", "contracts/hooks/merkle/src/lib.rs"], [("insertion", "packages/interface/src/types/merkle.rs: MerkleTree::insert"), ("root", "packages/interface/src/types/merkle.rs: MerkleTree::root_with_ctx"), ("empty subtree hashes", "packages/interface/src/types/merkle.rs: ZERO_HASHES")], observe=["merkle hook queries"])
P("P25", "Gas payments are never short, and the excess always goes back",
  "The gas paymaster accepts a payment only in one coin of its gas token covering the price of the gas asked for, or nothing when the price is zero; and it accepts every such payment. Exactly the excess is returned, to the address the payer or the message's metadata names and otherwise to the message's sender, and nothing else leaves the paymaster by a payment.",
  [IN, CF], "every amount, price, gas amount, metadata and refund address",
  "Tests pay a few exact amounts.",
  ["contracts/igps/core/src/execute.rs", "packages/interface/src/types/metadata.rs"], [("payment", "contracts/igps/core/src/execute.rs: pay_for_gas, post_dispatch"), ("metadata", "packages/interface/src/types/metadata.rs: IGPMetadata")], observe=["paymaster responses"])
P("P26", "One gas price everywhere: oracle price times rate, from the right sources",
  "The price charged for a dispatch, quoted for a dispatch, and quoted for a direct payment is gas amount times the oracle's gas price times its exchange rate divided by the fixed scale, rounded down once, from the oracle routed for the destination asked about that destination. The gas amount of a message is the one in its metadata, else the destination's configured amount, else the default.",
  [IN, CF], "every gas amount, price, rate, destination and routing",
  "Tests use rates that divide evenly for one destination.",
  ["contracts/igps/core/src/query.rs", "contracts/igps/core/src/execute.rs", "contracts/igps/core/src/contract.rs"], [("price", "contracts/igps/core/src/query.rs: quote_gas_price"), ("gas source", "contracts/igps/core/src/lib.rs: get_default_gas")], observe=["paymaster quotes and charges"])
P("P27", "The paymaster's takings go only to its beneficiary and settings stay as set",
  "A claim succeeds only for the current beneficiary and sends it the whole gas-token balance. The beneficiary, default gas and per-destination gas change only by the owner's calls, to exactly the given values, and the reports answer the stored values; instantiation stores the validated inputs.",
  [IN, HI], "every caller and history of paymaster calls",
  "Tests claim once.",
  ["contracts/igps/core/src/execute.rs", "contracts/igps/core/src/contract.rs", "contracts/igps/core/src/query.rs"], [("claim", "contracts/igps/core/src/execute.rs: claim"), ("settings", "contracts/igps/core/src/execute.rs")], observe=["paymaster calls and queries"])
P("P28", "Gas prices are the ones the oracle's owner set, never zero-rated",
  "The gas oracle's entries change only by its owner's calls, each storing exactly the given price and exchange rate for the given domain; a zero exchange rate is refused. A query answers the stored pair of the domain asked about and fails for a domain without one.",
  [IN, HI], "every history of updates and queries",
  "Tests set one or two domains.",
  ["contracts/igps/oracle/src/contract.rs"], [("update", "contracts/igps/oracle/src/contract.rs: execute"), ("query", "contracts/igps/oracle/src/contract.rs: query")], [("remote_gas_data", "price and rate per domain", "contracts/igps/oracle/src/contract.rs")], ["oracle calls and queries"])
P("P29", "The protocol fee hook charges its fee and pays out only to the owner's order",
  "The fee hook lets a message pass only with a single coin of the fee's denomination of at least the fee, and quotes exactly the configured fee. The fee changes only by the owner's call; funds leave it only by the owner's claim, which sends the whole balance to the named recipient, or to the owner when none is named.",
  [IN, HI], "every attached coin set, fee and caller",
  "Tests try a few amounts.",
  ["contracts/hooks/fee/src/lib.rs"], [("fee", "contracts/hooks/fee/src/lib.rs: execute"), ("quote", "contracts/hooks/fee/src/lib.rs: query")], [("coin_fee", "the fee", "contracts/hooks/fee/src/lib.rs")], ["fee hook calls and queries"])
P("P30", "Routing hooks pass each message, with its funds, to the hook chosen for it",
  "Each routing hook makes exactly one call for a message: to the hook routed for the message's destination, preferring in the custom variant the hook registered for that destination and recipient, and using in the fallback variant the fallback where there is no route. The message, metadata and all attached funds are passed on unchanged, and the quote is that of the same hook for the same message and metadata.",
  [IN, HI, CF], "every message, route table, custom table and fund set",
  "Tests use one or two destinations and no funds.",
  ["contracts/hooks/routing/src/lib.rs", "contracts/hooks/routing-custom/src/lib.rs", "contracts/hooks/routing-fallback/src/lib.rs", "packages/router/src/lib.rs"], [("selection", "each hook's post dispatch and quote")], observe=["messages and quotes of the routing hooks"])
P("P31", "The aggregate hook pays and calls every configured hook",
  "For a message the aggregate hook calls every configured hook in order with the message and metadata unchanged and exactly the funds that hook quoted for them; its quote adds up all coins quoted by all of them. The hook list changes only by the owner's call.",
  [IN, CF], "every hook list, quote and message",
  "Tests use two stub hooks.",
  ["contracts/hooks/aggregate/src/lib.rs"], [("fan-out", "contracts/hooks/aggregate/src/lib.rs: post_dispatch, quote_dispatch")], [("hooks", "hook list", "contracts/hooks/aggregate/src/lib.rs")], ["messages and quotes of the aggregate hook"])
P("P33", "Migration only upgrades a contract of the same kind and keeps its state",
  "Migrating any contract succeeds exactly when the stored contract record carries this contract's own name and an older version, records the new version, and changes no other state. No two contracts share a name.",
  [HI, CF], "every stored record and every contract",
  "Tests cover one or two records of the shared helper.",
  ["packages/utils/src/lib.rs", "contracts"], [("migrate", "packages/utils/src/lib.rs: migrate")], [("contract_info", "name and version record", "cw2")], ["migrate entry of every contract"])
P("P41", "Route tables change only as the owner asked and are reported as stored",
  "In every contract with a route table the owner's set calls apply exactly the given pairs of domain and route to it, and nothing else changes it. Looking up a domain answers its stored route or none, and the listings report the stored entries.",
  [IN, HI, PR], "every contract with a route table, every sequence of route calls and every query",
  "The package test covers one short sequence.",
  ["packages/router/src/lib.rs", "packages/interface/src/router.rs"], [("route table", "packages/router/src/lib.rs")], [("routes", "route per domain", "packages/router/src/lib.rs")], ["router calls and queries of every contract"])

P("P17", "Message bytes and message fields mean the same thing in both directions",
  "A message encodes as version, nonce, origin, sender, destination, recipient and body, with fixed-width big-endian numbers and 32-byte addresses, and decoding those bytes gives back exactly the same message; every input of at least the header's length decodes. The id is the keccak-256 hash of the complete encoding.",
  [IN], "every message and every byte string at least as long as the header",
  "Tests round-trip a handful of random messages; a field lost or moved only at some lengths or values is not sampled.",
  [MSG], [("encoding and decoding", MSG + ": From<Message> for HexBinary, From<HexBinary> for Message"), ("id", MSG + ": Message::id")], observe=["encoded messages", "message ids"])
P("P18", "A token transfer body carries recipient, amount and nothing truncated",
  "The body of a token transfer is the 32-byte recipient, the amount as 32 big-endian bytes, then the metadata; decoding gives back exactly what was encoded. A route refuses a transfer whose remote recipient is not 32 bytes long, so that the layout cannot shift.",
  [IN], "every recipient, amount and metadata",
  "Tests encode one transfer with a well-formed recipient.",
  ["packages/interface/src/warp/mod.rs", "contracts/warp/cw20/src/contract.rs", "contracts/warp/native/src/contract.rs"], [("body format", "packages/interface/src/warp/mod.rs: Message")], observe=["dispatched bodies of the token routes"])
P("P19", "Verification and payment metadata are read from exactly their places",
  "Message-id and merkle-root multisig metadata, aggregation metadata and gas payment metadata are decoded from exactly the documented byte ranges: signatures are consecutive 65-byte groups and an incomplete one is never counted, module i gets the bytes its own offsets name, and a refund address is used when it has 20 or 32 bytes and otherwise the default is. No well-formed gas metadata makes the paymaster fail.",
  [IN], "every metadata of every length",
  "Tests decode a few vectors; boundary lengths, offsets and mixed sizes are not covered.",
  ["packages/interface/src/types/metadata.rs"], [("formats", "packages/interface/src/types/metadata.rs")], observe=["decoded metadata in verify and post dispatch"])
P("P47", "Encoded aggregation metadata gives every module its own part back",
  "Aggregation metadata built for up to five modules keeps every given pair of module and metadata, encodes as the offset table followed by the modules' metadata in address order and nothing else, and reading the encoding for those modules in that order gives every module exactly the bytes that were put in for it, whatever their lengths, empty ones included.",
  [IN], "one to five modules, every metadata of every length (offsets fitting four bytes, as the format requires)",
  "The single round-trip test uses a few fixed pieces; offsets beyond the first modules, empty and long pieces are not sampled.",
  ["packages/interface/src/types/metadata.rs"], [("aggregation metadata", "packages/interface/src/types/metadata.rs: AggregateMetadata")], observe=["the bytes of encoded aggregation metadata and what from_hex reads from them"])
P("P48", "The deployment tools send the contracts only messages they accept",
  "Every message the TypeScript tools send to instantiate, configure, migrate or use a contract is one the addressed contract reads: the contract exists, the message is one it has, every field it needs is there with a value of the kind it reads, and no field it does not know. Settings come from where they belong: default and required hook, gas price and exchange rate, threshold, mailbox and prefix are read from the entries of those names. The example token route settings are accepted by the contract they are for.",
  [IN, CF, PR], "every configuration file and context the tools can be run with (values of unknown type, such as those read from untyped JSON, are taken to be right)",
  "No test runs the tools against the contracts: a renamed or missing field shows only when a deployment fails on a live chain.",
  ["script/deploy/hook.ts", "script/deploy/igp.ts", "script/deploy/ism.ts", "script/deploy/warp.ts", "script/commands/deploy.ts", "script/commands/update.ts", "script/commands/warp.ts", "script/commands/contract.ts", "script/commands/migrate.ts", "script/shared/contract.ts", "packages/interface/src"],
  [("messages of a deployment", "script/deploy/*.ts: deployIsm, deployHook, deployIgp, deployNativeTokenWarp, deployCw20TokenWarp"), ("messages of the commands", "script/commands/*.ts"), ("message types", "packages/interface/src")],
  observe=["the JSON messages handed to deployContract, executeContract and executeMultiMsg"])
P("P49", "The published schemas describe the contracts as they are",
  "The schema generator writes, for every contract of the workspace, one interface description named after the contract, whose instantiate, execute, query and migrate messages are the ones that contract takes and whose answers are the ones its queries give. Every message and answer is described with the very names and value kinds that the contract reads and writes on the wire (a number sent as a string is described as a string).",
  [IN, CF], "every contract, message, field and query answer of the workspace",
  "No test runs the generator or compares a schema with the serialisation code; a description of the wrong type shows only when a generated client is refused by a live contract.",
  ["packages/schema/src/main.rs", "packages/interface/src"],
  [("list of descriptions", "packages/schema/src/main.rs: main"), ("message and answer types", "packages/interface/src")],
  observe=["the files written by the generator", "JSON read and written by the contracts"])
P("P50", "A deployment is carried out, connected and recorded as configured",
  "For every type of hook and security module the configuration knows, the deployment tools create exactly the contract of that type, with the configured owner and settings, and once each of the parts it names, whatever their number and nesting; they send the messages that connect them (a route for every configured domain, custom and fallback hooks, oracle routes with the configured exchange rate and gas price, every domain's validators and threshold) and no others; and they record the contract created with every part under the domain (or role) it serves. Contracts already on record are kept, not created again. The deploy command sets the mailbox's default security module, default hook and required hook to the recorded ones and saves the record; token routes are created with the configured token, recorded under their identifier and given the security module asked for; the update commands send the configured values to the contracts on record. The messages of one step all reach the chain, however many there are and in however many transactions they are sent, each once, at its own contract; one contract is created from the code recorded for its name, with the settings given, and recorded under the address it got.",
  [IN, CF], "every configuration (of any size and nesting), every deployment record and every combination of options",
  "No test runs the tools; a part created but not connected, or recorded under the wrong domain, shows only on a live chain or in a later migration.",
  ["script/deploy/hook.ts", "script/deploy/igp.ts", "script/deploy/ism.ts", "script/deploy/warp.ts", "script/commands/deploy.ts", "script/commands/update.ts", "script/commands/warp.ts", "script/shared/contract.ts"],
  [("hooks", "script/deploy/hook.ts: deployHook, deployRoutingHook, deployCustomRoutingHook, deployFallbackRoitingHook; script/deploy/igp.ts: deployIgp"), ("security modules", "script/deploy/ism.ts: deployIsm, deployRoutingIsm"), ("deployment", "script/commands/deploy.ts: handleDeploy, deployCore"), ("token routes", "script/commands/warp.ts: handleCreate, handleLink; script/deploy/warp.ts"), ("updates", "script/commands/update.ts"), ("sending", "script/shared/contract.ts: executeMultiMsg, executeContract, deployContract")],
  [("context", "the deployment record", "script/shared/context.ts: ContextDeployments")],
  observe=["contracts created and messages sent by a run of the tools", "the context file written"])
P("P51", "The follow-up tools reach every recorded contract, and heed every option",
  "The migrate command considers every contract of the deployment record: the core contracts, the test receiver, every token route, and every hook and security module at any depth of nesting (with the oracle of a gas paymaster), and migrates each to the code recorded for its own type. The agent configuration names the recorded mailbox and validator announce, and the gas paymaster and merkle tree hook found at any depth of the recorded hooks. Every option a command's handler reads is one the command accepts, and every option a command accepts is read.",
  [IN, CF], "every deployment record (of any size and nesting) and every combination of options",
  "No test runs the tools; a contract left out of a migration keeps its old code silently.",
  ["script/commands/migrate.ts", "script/shared/agent.ts", "script/commands/warp.ts", "script/commands/context.ts", "script/commands/upload.ts", "script/commands/evm.ts", "script/commands/wallet.ts"],
  [("contracts to migrate", "script/commands/migrate.ts: handleMigrate, flattenIsm, flattenHook"), ("agent configuration", "script/shared/agent.ts: fromContext, findHook, mfrpHooks"), ("options", "script/commands/*.ts: command definitions and handlers")],
  [("context", "the deployment record", "script/shared/context.ts: ContextDeployments")],
  observe=["contracts migrated", "the agent configuration file", "effect of a command's options"])
P("P20", "A delivery releases exactly the stated tokens to the stated recipient",
  "A token route accepts a delivery only from its mailbox and only when the message's sender is the route registered for the origin; it then gives exactly the amount in the body, of its own token, to the recipient in the body, minting in bridged mode and paying from custody in collateral mode, and does nothing else.",
  [IN, HI, CF], "every caller, origin, sender, body, mode and route table",
  "Tests deliver one transfer per mode.",
  ["contracts/warp/cw20/src/contract.rs", "contracts/warp/native/src/contract.rs"], [("delivery", "contracts/warp/*/src/contract.rs: mailbox_handle")], [("token, mode, mailbox, hrp", "route configuration", "contracts/warp/*/src/lib.rs"), ("routes", "remote route per domain", "packages/router/src/lib.rs")], ["messages of a delivery"])
P("P21", "A transfer out takes exactly what it announces, and announces it to its peer",
  "A transfer to a registered destination takes exactly the announced amount from the sender (burning it in bridged mode, keeping it in collateral mode) and dispatches exactly one message, to the route registered for the destination, whose body names the requested recipient and that same amount; funds beyond the transferred amount are passed on to pay for the dispatch. A transfer that is not fully paid for, or has no route, fails.",
  [IN, CF], "every sender, amount, set of attached coins, destination, hook choice and mode",
  "Tests transfer one amount with at most one extra coin.",
  ["contracts/warp/cw20/src/contract.rs", "contracts/warp/native/src/contract.rs"], [("transfer", "contracts/warp/*/src/contract.rs: transfer_remote")], observe=["messages and funds of a transfer"])
P("P22", "A token route's token, mode, prefix and mailbox never change once set",
  "No call, reply or migration changes a route's token, mode, address prefix or mailbox after its creation has completed; no later call makes the token replaceable through a reply. The token queries answer the stored token and mode.",
  [HI, PR], "every call of both token routes in every history",
  "Tests never check that unrelated calls leave these alone.",
  ["contracts/warp/cw20/src/contract.rs", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/lib.rs", "contracts/warp/native/src/lib.rs"], [("configuration", "contracts/warp/*/src/contract.rs: instantiate, reply")], [("token, mode, hrp, mailbox", "", "contracts/warp/*/src/lib.rs")], ["token queries", "stored configuration"])
P("P40", "A route's hook and security module are the ones its owner set",
  "On both token routes the mailbox, hook and security module settings change only by the owner's own set calls, to the given valid address; each report answers its own setting, and the module the route names to a mailbox is exactly the one set, or none.",
  [IN, HI], "every caller and history of calls to the token routes",
  "Tests of the connection package set each value once.",
  ["packages/connection/src/lib.rs", "contracts/warp/cw20/src/contract.rs", "contracts/warp/native/src/contract.rs"], [("connection settings", "packages/connection/src/lib.rs")], [("conn::hook, conn::ism, conn::mailbox", "", "packages/connection/src/lib.rs")], ["connection queries", "interchain security module query"])
P("P43", "A new token route controls its token, with the terms it was created with",
  "Creating a route stores the validated owner, mailbox, prefix and mode; in bridged mode it creates exactly the requested token, with itself as minter and administrator, and its reply adopts exactly the token that creation reports; in collateral mode it adopts the given token. The creation reply works for that one request only and sends nothing.",
  [IN, CF], "every creation request and creation result",
  "Tests create one token per mode and hand-build the reply.",
  ["contracts/warp/cw20/src/contract.rs", "contracts/warp/native/src/contract.rs"], [("creation", "contracts/warp/*/src/contract.rs: instantiate"), ("creation result", "contracts/warp/*/src/contract.rs: reply")], [("token, mode", "", "contracts/warp/*/src/lib.rs")], ["messages of instantiation", "stored token"])

P("P32", "A validator's announced locations were announced by its own key, once each",
  "Announcing succeeds exactly when the validator address has 20 bytes, the same (validator, location) pair was not announced before, and the signature over this chain's announcement digest (domain, mailbox, location) recovers to the validator. It enrols the validator, remembers the pair, and appends the location to that validator's list; nothing else ever changes these records. The reports list exactly the announced validators and, for each one asked about, its announced locations in order.",
  [IN, HI], "every caller, validator, location and signature, after every history of announcements",
  "Tests announce a few fixed signatures; replay keys, digests of other lengths and list handling over histories are not sampled.",
  ["contracts/core/va/src/contract.rs", "contracts/core/va/src/state.rs", "packages/interface/src/types/crypto.rs"], [("announcement", "contracts/core/va/src/contract.rs: announce"), ("digest", "packages/interface/src/types/crypto.rs")],
  [("storage_locations, replay_protections, validators", "announcements so far", "contracts/core/va/src/state.rs")], ["validator announce execute and queries"])
P("P37", "An address means the same account as text, as bytes and padded to 32 bytes",
  "Encoding 20 or 32 bytes as an address drops only the zero padding of a padded 20-byte address and otherwise encodes all bytes under the given prefix; other lengths are refused. The 32-byte form of an address is its decoded bytes left-padded with zeros. Converting back and forth gives the same account for both widths.",
  [IN], "every byte string, prefix and address",
  "Tests convert a few addresses; leading zero bytes and 32-byte contract addresses are edge cases they miss.",
  ["packages/interface/src/types/bech32.rs"], [("conversions", "packages/interface/src/types/bech32.rs")], observe=["addresses in messages, announcements and deliveries"])
P("P44", "Token factory messages are encoded as the chain decodes them",
  "Each protobuf message the native route sends to the token factory module (create, mint, burn, denom metadata) encodes every field under the field number and wire type of the chain's protobuf definition, under the module's type URL, and its creation response is read from the chain's field.",
  [PR], "every field of every token factory message type",
  "The tests never run against the chain's protobuf decoder; wrong field numbers go unnoticed in the multitest environment.",
  ["contracts/warp/native/src/proto.rs", "contracts/warp/native/src/contract.rs"], [("message types", "contracts/warp/native/src/proto.rs")], observe=["Stargate messages of the native route"])

P("P45", "Contracts send messages and funds only where that is their purpose",
  "Apart from the operations that exist to call others or move funds (mailbox dispatch and process, post-dispatch of aggregate and routing hooks, gas payments, the two claims, token route deliveries, transfers and creation), every successful instantiation, call, migration and reply of every contract sends no message at all; setting, nominating, pausing or announcing never moves funds.",
  [IN, PR], "every caller, message and stored state of every contract",
  "Tests of administrative calls look at storage and events; an extra message, or one sent only for particular input, goes unseen.",
  ["contracts", "packages"], [("responses", "contracts: instantiate, execute, migrate, reply"), ("shared handlers", "packages/ownable, packages/pausable, packages/router, packages/connection")], observe=["messages of every response"])
P("P46", "A contract that is set up always answers questions about its state",
  "Every query for stored settings or counters (owner, nominee, mailbox, hooks, routes, fees, gas settings, validators, tree, nonce, delivery status, pause state, token) answers on every instantiated contract, whatever the rest of the state and whatever is asked about; the latest dispatch id needs only a dispatch and a route's token only its creation. No such query depends on another setting being present.",
  [IN, HI, CF], "every query argument and every stored state after instantiation",
  "Tests query fully configured contracts with ordinary arguments.",
  ["contracts", "packages"], [("queries", "contracts: query"), ("shared queries", "packages/ownable, packages/pausable, packages/router, packages/connection")], observe=["queries of every contract"])

# properties outside the family's reach: id -> reason
P("P16", "Contracts understand each other: calls are readable, answers as declared",
  "Every message the interface defines for a role (hook, security module, recipient, mailbox, oracle) is readable field by field by each contract that plays the role. Each query of every contract can be answered, with a value of the type its interface declares; every query between contracts reads that type. Messages and answers keep their published wire names and shapes, which relayers, validators and wallets read. Security modules report their true kind.",
  [CF, PR], "every contract in a role and every message and query of its interface",
  "Each contract is tested alone with its own message types; a renamed field or a wrong answer type shows only when two deployed contracts talk.",
  ["packages/interface/src", "contracts"], [("message and answer types", "packages/interface/src"), ("query dispatch", "contracts: query"), ("queries to other contracts", "packages/interface/src/ism/mod.rs, packages/interface/src/hook/mod.rs, packages/interface/src/igp/oracle.rs")],
  observe=["query of every contract", "messages between contracts"])
P("P35", "Listing queries page through exactly what is stored",
  "A listing answers the stored records unchanged, in key order of the requested direction (ascending by default), strictly after the given offset in that direction, at most the requested number (10 by default); it succeeds for every limit up to 30 and refuses larger ones. Repeating with the last key as offset therefore visits every record once. Single-record queries answer the stored record.",
  [IN, HI, CF], "every stored table, offset, limit and order",
  "Tests list a handful of records from the start; other offsets, directions and limits are not covered.",
  ["packages/router/src/lib.rs", "contracts/hooks/routing-custom/src/lib.rs", "contracts/igps/core/src/query.rs", "packages/interface/src/lib.rs"],
  [("pages of the route table", "packages/router/src/lib.rs: get_routes"), ("pages of custom hooks", "contracts/hooks/routing-custom/src/lib.rs"), ("pages of gas amounts", "contracts/igps/core/src/query.rs")],
  observe=["listing queries"])
P("P38", "Events report what the call really did",
  "The events of a successful call carry the facts of that very call: message ids are the keccak-256 hash of the message's bytes and origin, destination, sender, recipient and index its own fields, routes and tree indices the ones used, gas payments the price, payment and excess, transfers the moved token and amount and the credited or remote recipient, and settings, ownership, pause, route and instantiation events the caller and the given values, in batches every entry.",
  [IN, HI, CF], "every successful execution of every contract",
  "Relayers and explorers act on events alone; tests compare events of single fixed calls and many attributes are not compared at all.",
  [MB + "event.rs", "contracts/igps/core/src/event.rs", "contracts/hooks", "contracts/warp", "packages/ownable/src/lib.rs", "packages/router/src/lib.rs"],
  [("mailbox events", MB + "event.rs"), ("payment events", "contracts/igps/core/src/event.rs"), ("hook, warp and settings events", "contracts, packages")],
  observe=["events of every execute entry"])
P("P36", "Valid messages are never refused by the mailbox",
  "Processing succeeds whenever the message has this version and domain and a recipient address, was not processed before, and its security module and recipient answer and accept. Dispatch succeeds on a configured mailbox for every 32-byte recipient, any body and well-formed hook, if the attached funds cover the required hook's quote. There is no further condition; a failing hook or recipient call undoes the call.",
  [IN, HI, CF], "every message, caller, metadata, stored state and answers of the consulted contracts",
  "Tests accept a few fixed messages; a condition that refuses particular bodies, origins, domains or callers is not sampled.",
  [MB + "execute.rs"], [("conditions of process and dispatch", MB + "execute.rs: process, dispatch")], [("config", "defaults", MB + "state.rs"), ("deliveries", "processed ids", MB + "state.rs")], ["mailbox execute process", "mailbox execute dispatch"])
P("P39", "The mailbox's configuration is what was given and is reported as stored",
  "A new mailbox stores the given prefix, domain and owner and no defaults. Each of the three setters succeeds exactly for the owner and a valid address and replaces exactly its own default; nothing else changes the configuration, so domain and prefix never change. Queries answer the stored values, and the recipient module query answers the module that processing would ask.",
  [IN, HI], "every instantiation, every configuration call and every query in every history",
  "Tests set each default once and do not look at the other fields or at later calls.",
  [MB + "execute.rs", MB + "query.rs", MB + "contract.rs", MB + "state.rs"], [("setters", MB + "execute.rs: set_default_ism, set_default_hook, set_required_hook"), ("queries", MB + "query.rs")], [("config", "prefix, domain, defaults", MB + "state.rs")], ["mailbox queries", "mailbox config"])
NOT_APPLICABLE = {}
