#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both results are committed)."""
import json, os
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, note="", tech=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), note, tech))

MB = "contracts/core/mailbox/src/"
prop("C01", "Every message is delivered at most once",
 "A message accepted by the mailbox is handed to its recipient exactly once over the whole life of the chain, and is from then on reported as delivered; any further attempt to process the same message is refused and has no effect. A processing attempt that fails for whatever reason leaves the message undelivered and deliverable later. This also holds when the recipient re-enters the mailbox, when several messages are processed in one transaction, and when the metadata differs between attempts.",
 ["histories", "fault_sequences"], "all histories of process calls, including re-entrant, batched, partly failing and repeated ones, with recipients and modules that fail at any point",
 "test_process runs one call against mocked storage; replay is tested once with the delivery record written by hand, never through a history, re-entry or a rolled-back transaction",
 [MB+"execute.rs", MB+"state.rs"], [("process: delivered check, record and handle message", MB+"execute.rs"), ("delivery record per message id", MB+"state.rs")],
 ["calls reaching the recipient", "message_delivered query", "transaction outcome"], [dict(name="delivered ids", meaning="ids already handed over", where=MB+"state.rs")])

prop("C02", "Only messages approved by the effective security module are delivered",
 "A message reaches its recipient only if it carries the current protocol version, names this chain as its destination, and the recipient's own security module (or the default one when the recipient declares none) approved exactly this message with exactly the submitted metadata. A refusal, an error or an unusable answer of that module, or of the recipient asked for its module, prevents delivery, and no other module's opinion matters. A message for which all of this holds is delivered with its true origin, sender and body.",
 ["inputs", "configurations", "histories"], "all messages (every field and raw byte form), metadata, recipients with or without an own module, module verdicts and module changes over time",
 "test_process uses a mocked querier that always answers from a fixed table; wrong-module, changing-module and malformed-answer combinations are never run against real contracts",
 [MB+"execute.rs", "packages/interface/src/ism/mod.rs", "packages/interface/src/types/message.rs"], [("process: version, destination, verify", MB+"execute.rs"), ("recipient_ism selection", "packages/interface/src/ism/mod.rs")],
 ["verify queries and their arguments", "calls reaching the recipient", "recipient_ism query"])

prop("C03", "Dispatch assigns consecutive nonces and announces the exact message",
 "Successful dispatches from one mailbox carry the nonces 0, 1, 2, ... with no gap and no repetition, and each message states the protocol version, this chain as origin, the true caller as sender, and the caller's destination, recipient and body unchanged. The returned id is the hash of that message and is the one reported as latest. A dispatch that fails anywhere in its transaction consumes no nonce and leaves nothing dispatched.",
 ["histories", "inputs", "fault_sequences"], "all histories of single, batched, nested and failing dispatches, callers of any address length, recipients and bodies of any content, up to the end of the nonce range",
 "test_dispatch checks one fixed call per case on fresh storage; roll-backs, nesting, address lengths and the end of the range are not reached",
 [MB+"execute.rs", MB+"query.rs", "packages/interface/src/types/message.rs"], [("dispatch: nonce increment and message construction", MB+"execute.rs"), ("message encoding and id", "packages/interface/src/types/message.rs")],
 ["messages given to the hooks", "dispatch response data", "nonce and latest_dispatch_id queries"], [dict(name="nonce", meaning="number of messages dispatched", where=MB+"state.rs")])

prop("C04", "Dispatch pays each hook correctly and keeps nothing",
 "On dispatch the required hook receives exactly its own quoted fee and the other hook (the caller's choice, else the default) receives everything else that was paid; the mailbox itself keeps nothing. A dispatch that pays less than the required hook's quote in any denomination fails and moves no money, and one that pays the quoted amount is never refused by the mailbox. The mailbox's quote is the sum of the two hooks' quotes for that very message.",
 ["inputs", "configurations", "histories"], "all fee structures over several denominations, payments (exact, more, less, other denominations), hook choices and hook failures",
 "test_post_dispatch covers a handful of single-denomination pairs on mocks with no bank; conservation over a ledger cannot be seen there",
 [MB+"execute.rs", MB+"query.rs"], [("fee split between required and chosen hook", MB+"execute.rs"), ("quote_dispatch sum", MB+"query.rs")],
 ["funds attached to each hook call", "balances before and after", "quote_dispatch query"])

prop("C05", "The merkle tree commits exactly the dispatched messages, in order",
 "At every moment the tree's root, count and branch equal those of the standard incremental 32-level tree over exactly the ids of the inserted messages, in order of insertion. Every message the mailbox dispatches with this hook is inserted in that very dispatch, and only the mailbox's latest dispatch can be inserted at all; a refused or reverted insertion leaves the tree unchanged. Inclusion proofs for every inserted message verify against the reported root.",
 ["histories", "inputs"], "all insertion histories (including refused, reverted and out-of-order attempts) and all leaf values and tree sizes up to the full tree",
 "unit tests compare a few fixed vectors of one or two leaves; no history with failures and no large counts",
 ["contracts/hooks/merkle/src/lib.rs", "packages/interface/src/types/merkle.rs"], [("insert/root/branch algorithms", "packages/interface/src/types/merkle.rs"), ("post_dispatch latest-id check", "contracts/hooks/merkle/src/lib.rs")],
 ["root, count, check_point, tree, branch queries", "events of the insertion"], [dict(name="tree", meaning="branch and count", where="contracts/hooks/merkle/src/lib.rs")])

prop("C06", "Multisig approval needs a threshold of distinct enrolled validators",
 "The multisig module approves a message if and only if the metadata carries valid signatures by at least the configured threshold of distinct validators enrolled for the message's origin, over the checkpoint made of that origin, the stated merkle-tree hook, root and index, and this very message's id. Repeating a signature, signatures of strangers, or signatures over anything else never count. An origin without a configured set or with an unusable threshold approves nothing, and a configuration change takes effect exactly as stated.",
 ["inputs", "configurations", "histories"], "all validator sets, thresholds, signature multisets, metadata byte strings and messages, over histories of configuration changes",
 "existing tests use one recorded metadata per chain with one hard-coded validator set; duplicates are tested once",
 ["contracts/isms/multisig/src/query.rs", "contracts/isms/multisig/src/contract.rs", "packages/interface/src/types/metadata.rs", "packages/interface/src/types/crypto.rs"],
 [("verify_message", "contracts/isms/multisig/src/query.rs"), ("checkpoint digest", "packages/interface/src/types/crypto.rs"), ("metadata layout", "packages/interface/src/types/metadata.rs"), ("set/unset validators", "contracts/isms/multisig/src/contract.rs")],
 ["verify and verify_info queries", "enrolled_validators query"])

prop("C07", "Aggregate module approves only at its threshold, each module on its own metadata",
 "The aggregate module approves a message only if at least the configured threshold of different modules approve that message, each judged with exactly the slice of the metadata assigned to it, none judged without a slice, and none counted twice however often it is listed; when that many approve and no module fails with an error, it does approve. Malformed metadata never leads to approval. A configuration whose threshold is zero or exceeds the number of modules is refused.",
 ["inputs", "configurations"], "all module lists, thresholds, verdict vectors and metadata byte strings (missing, overlapping, out-of-range, swapped slices)",
 "the only verify test runs one well-formed metadata with two mocked modules",
 ["contracts/isms/aggregate/src/lib.rs", "packages/interface/src/types/metadata.rs"], [("verify loop and threshold", "contracts/isms/aggregate/src/lib.rs"), ("metadata slices", "packages/interface/src/types/metadata.rs")],
 ["verify queries received by the modules", "verify answer", "modules_and_threshold query"])

prop("C08", "Routing security module judges a message by the module of its origin",
 "The routing module's verdict, its verification requirements and its reported route for a message are those of the module currently registered for the message's origin, asked about the same message and metadata. A message from an origin with no registered module is never approved. Registering, replacing and removing a route takes effect exactly for that origin.",
 ["inputs", "configurations", "histories"], "all route tables, histories of route changes, messages and module answers",
 "tests set at most one route and query it on mocks",
 ["contracts/isms/routing/src/contract.rs", "packages/interface/src/ism/routing.rs"], [("verify / verify_info / route by origin", "contracts/isms/routing/src/contract.rs")],
 ["verify and verify_info queries reaching the modules", "route query"])

prop("C09", "A pausable gate blocks everything while paused and nothing otherwise",
 "While the pausable hook is paused no message can be dispatched through it, and while the pausable security module is paused it approves nothing; while unpaused both let everything pass. Only the owner changes the state, and only from paused to unpaused or back; the state reported is the state enforced.",
 ["histories", "configurations"], "all histories of pause/unpause/dispatch/process by owner and strangers, both initial states, the hook in any position",
 "tests check single transitions on mocks; never through the mailbox, in which the gate must actually block",
 ["contracts/hooks/pausable/src/lib.rs", "contracts/isms/pausable/src/lib.rs", "packages/pausable/src/lib.rs"], [("pause state and guard", "packages/pausable/src/lib.rs")],
 ["dispatch/process outcomes", "verify and pause_info queries"])

prop("C10", "Ownership moves only by the owner's nomination and the nominee's claim",
 "In every owned contract, the owner changes only when an account currently nominated by the current owner claims ownership itself; nobody else can nominate, revoke or claim, a revoked or used nomination cannot be claimed, and a nomination cannot be silently replaced while one is pending. The reported owner and pending owner are always the effective ones.",
 ["histories", "configurations"], "all histories of nominate/revoke/claim calls by all parties on all owned contracts",
 "the package test checks single calls on prepared storage, and no test runs it in the contracts that embed it",
 ["packages/ownable/src/lib.rs"], [("init/revoke/claim ownership", "packages/ownable/src/lib.rs")],
 ["ownership calls' outcome", "get_owner and get_pending_owner queries"], [dict(name="owner, pending owner", meaning="who may administrate", where="packages/ownable/src/lib.rs")])

prop("C11", "Administration is for the current owner only, and takes effect",
 "Every operation that changes a contract's configuration, or pays out what it collected, is refused with no effect for anyone but the contract's current owner (or the stated beneficiary): strangers, former and merely nominated owners, and the contract itself included. For the owner it succeeds and the reported configuration is exactly what was asked for, everything else unchanged.",
 ["inputs", "histories", "configurations"], "all administrative operations of all contracts, all callers and histories of ownership and earlier settings",
 "tests check one stranger per operation on fresh storage, and not after an ownership move",
 ["packages/ownable/src/lib.rs", "packages/router/src/lib.rs", "packages/connection/src/lib.rs", MB+"execute.rs", "contracts/igps/core/src/execute.rs", "contracts/isms/multisig/src/contract.rs", "contracts/hooks/aggregate/src/lib.rs", "contracts/hooks/fee/src/lib.rs", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs"],
 [("owner checks", "packages/ownable/src/lib.rs and each execute entry point")],
 ["call outcome per caller", "all configuration queries before and after"])

prop("C12", "Gas quotes are the exact product of gas, price and exchange rate",
 "The gas paymaster's quote for a destination is exactly gas amount times gas price times exchange rate divided by 10^10, rounded down, in its own token, using the oracle currently set for that destination. For a dispatch the gas amount is the one named in the metadata, else the one set for the destination, else the default. A destination without an oracle or price is refused, and a value out of range is refused rather than wrapped.",
 ["inputs", "configurations", "histories"], "all gas amounts, prices, rates (to the full integer ranges), metadata and configuration histories",
 "tests quote a few fixed numbers",
 ["contracts/igps/core/src/query.rs", "contracts/igps/core/src/execute.rs", "contracts/igps/core/src/lib.rs", "packages/interface/src/types/metadata.rs"], [("quote_gas_price", "contracts/igps/core/src/query.rs"), ("gas amount selection", "contracts/igps/core/src/lib.rs")],
 ["quote_gas_payment, quote_dispatch and exchange rate queries"])

prop("C13", "Gas payments charge the exact quote, refund the rest, go to the beneficiary",
 "A gas payment takes exactly the quoted amount, returns any excess to the stated refund address (else to the payer of the message) in the same transaction, and is refused with no movement of money if it is less than the quote, in another denomination, or mixed with one. The beneficiary can claim everything collected, nobody else can, and money is neither lost nor created. A message whose quote is zero needs no payment.",
 ["inputs", "histories", "configurations"], "all payments, refund targets of every address form, entry points (direct and through dispatch), prices, and claim histories",
 "tests check one overpayment and one underpayment on mocks without balances",
 ["contracts/igps/core/src/execute.rs", "packages/interface/src/types/metadata.rs"], [("pay_for_gas, post_dispatch, claim", "contracts/igps/core/src/execute.rs"), ("refund address in the metadata", "packages/interface/src/types/metadata.rs")],
 ["balances before and after", "call outcome"])

prop("C14", "The gas oracle reports exactly the last accepted configuration",
 "For each destination the oracle reports exactly the gas price and exchange rate of the last accepted setting, unaffected by settings for other destinations, and refuses to answer for a destination never set. A setting with a zero exchange rate is refused as a whole, a batch applies completely or not at all, and within one batch the last entry for a destination wins.",
 ["inputs", "histories"], "all setting histories, single and batched, over all domains and values",
 "tests set a fixed list once and read it back",
 ["contracts/igps/oracle/src/contract.rs", "contracts/igps/oracle/src/state.rs"], [("set_remote_gas_data(_configs)", "contracts/igps/oracle/src/contract.rs")],
 ["exchange rate and gas price query after every call"])

prop("C15", "Routing hooks pass message and payment to exactly the configured hook",
 "A routing hook forwards a message, its metadata and the whole payment to exactly one hook: the one set for the recipient on that destination if the variant supports it, else the one set for the destination, else the fallback if there is one; otherwise the dispatch fails. Its quote is that hook's quote, and a failure of the chosen hook fails the dispatch.",
 ["inputs", "configurations", "histories"], "all route, custom and fallback tables and histories of changes, destinations, recipients and payments",
 "tests check single lookups on mocks with zero funds, so neither payment forwarding nor precedence after changes is seen",
 ["contracts/hooks/routing/src/lib.rs", "contracts/hooks/routing-custom/src/lib.rs", "contracts/hooks/routing-fallback/src/lib.rs", "packages/router/src/lib.rs"], [("post_dispatch / quote_dispatch routing", "contracts/hooks/routing*/src/lib.rs")],
 ["calls and funds reaching the hooks", "quote_dispatch query", "balances"])

prop("C16", "The aggregate hook runs every configured hook once, with its own fee",
 "A dispatch through the aggregate hook calls every configured hook exactly once, with the same message and metadata and exactly the fee that hook quotes, and succeeds only if all of them do. Its quote is the sum of its hooks' quotes per denomination. Changing the list of hooks takes effect for the next dispatch.",
 ["inputs", "configurations", "histories"], "all hook lists (empty, repeated, nested), fee shapes, payments and failing members",
 "the test has a fixed pair of mocked hooks without fees",
 ["contracts/hooks/aggregate/src/lib.rs"], [("post_dispatch fan-out, quote sum", "contracts/hooks/aggregate/src/lib.rs")],
 ["calls and funds reaching the hooks", "quote_dispatch query", "balances"])

prop("C17", "The protocol fee is collected in full, kept, and paid out to the owner only",
 "While a fee is set, every dispatch through the fee hook pays at least the current fee in its denomination or fails without effect, and the quote equals that fee. What was paid stays in the hook until its current owner claims it, in full, to the recipient of the owner's choice; nobody else can move any of it.",
 ["inputs", "histories"], "all fee settings and changes, payments, claims and callers over histories with ownership moves",
 "tests check one payment and one claim on mocks",
 ["contracts/hooks/fee/src/lib.rs"], [("post_dispatch fee check, claim", "contracts/hooks/fee/src/lib.rs")],
 ["balances before and after", "call outcome", "fee and quote queries"])

prop("C18", "Bridged tokens are always fully backed, and redeemable",
 "Across all chains of a bridge, the synthetic supply plus the tokens in flight never exceeds, and without donations equals, the collateral locked on the home chain, after every step and whatever the order, delay, repetition or forgery of deliveries. No message creates tokens twice, on the wrong chain, or for a transfer that never happened. Everyone holding synthetic tokens can bring all of them back to the home chain.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all interleavings of transfers, deliveries, replays, forgeries, pauses and donations on three chains, for native and cw20 homes and remotes",
 "unit tests run one contract with mocks; there is no test with two chains in the executed suite",
 ["contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs", "contracts/warp/native/src/conv.rs", "contracts/warp/cw20/src/conv.rs", MB+"execute.rs"], [("lock/burn on transfer, release/mint on delivery", "contracts/warp/*/src/contract.rs"), ("replay and authenticity protection", MB+"execute.rs")],
 ["balances and supplies on all chains after every step"])

prop("C19", "A token route releases tokens only for its enrolled remote router",
 "A token route releases or mints tokens only when its mailbox delivers a message whose sender is the router currently enrolled for that message's origin, and then exactly the stated amount of its own token to exactly the stated recipient. Any other caller, sender, origin or malformed body is refused with no effect. A delivery that cannot be honoured in full is refused as a whole.",
 ["inputs", "configurations", "histories"], "all callers, origins, senders, bodies, recipients, amounts and route histories, in all four kinds of route",
 "tests check one accepted and few refused calls on mocks without balances",
 ["contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs", "packages/interface/src/warp/mod.rs", "packages/router/src/lib.rs"], [("mailbox_handle checks and release", "contracts/warp/*/src/contract.rs"), ("transfer body decoding", "packages/interface/src/warp/mod.rs")],
 ["balances and supply before and after", "call outcome"])

prop("C20", "What leaves the sender is exactly what the remote is told to release",
 "A transfer to a remote chain takes exactly the stated amount of the route's token from the sender (locking or burning it) and dispatches exactly one message, to the router enrolled for that destination, stating that amount and recipient. Everything else the sender attached pays the hooks, and the chosen or configured hook is used. A transfer that is underfunded, names an unknown destination or an unusable recipient is refused, and nothing is taken.",
 ["inputs", "configurations", "histories"], "all amounts, recipients, destinations, fees, payments, hook choices and routes in all four kinds of route",
 "tests check single calls on mocks without a bank and with a mocked mailbox",
 ["contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs", "packages/interface/src/warp/mod.rs"], [("transfer_remote", "contracts/warp/*/src/contract.rs"), ("transfer body encoding", "packages/interface/src/warp/mod.rs")],
 ["balances and supply", "the dispatched message", "call outcome"])

prop("C21", "Validator announcements are authentic, unique and complete",
 "A storage location is recorded for a validator only with that validator's own signature over this location, this chain's domain and this mailbox, and only once. The announced validators and each validator's locations are reported completely and in order of announcement, and a refused announcement changes nothing.",
 ["inputs", "histories"], "all announcements (forged in any one respect, malleated, replayed, malformed) and all histories of them",
 "tests use three recorded announcements and replay them once",
 ["contracts/core/va/src/contract.rs", "contracts/core/va/src/state.rs", "packages/interface/src/types/crypto.rs"], [("announce: digest, recovery, replay protection", "contracts/core/va/src/contract.rs")],
 ["announce outcome", "announced validators and locations queries"])

prop("C29", "Instantiation sets up exactly the requested configuration, or fails",
 "A successfully instantiated contract reports exactly the configuration asked for, in its own chain's address form, with the stated owner (who can administrate it at once, unlike the deployer). A token route that creates its own token gives it exactly the name, description and units asked for, and is alone in charge of it. An instantiation with an unusable owner, prefix or address is refused.",
 ["inputs", "configurations"], "all instantiation messages of all contracts, valid or corrupted in one field",
 "tests instantiate each contract with one or two fixed messages",
 [MB+"contract.rs", "contracts/core/va/src/contract.rs", "contracts/igps/core/src/contract.rs", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs", "packages/interface/src/types/bech32.rs"], [("instantiate entry points", "each contract's contract.rs/lib.rs")],
 ["all configuration queries after instantiation", "call outcome"])

prop("C24", "Routing registries list and look up exactly what is registered",
 "Every registry of routes (by domain), of per-recipient hooks and of gas settings reports for each key exactly what was last registered for it and nothing for any other key, and its listings, walked page by page in either direction and with any page size, give every registered entry exactly once and in order, also after entries were removed or overwritten. A batch of settings applies completely or not at all, and within a batch the last entry for a key wins.",
 ["inputs", "histories", "configurations"], "all registration histories (set, overwrite, remove, batched), registry sizes over several pages, page sizes, starting points and directions, in all contracts with a registry",
 "tests list at most a handful of entries of a fresh registry, never past the first page or after removals",
 ["packages/router/src/lib.rs", "packages/interface/src/router.rs", "contracts/hooks/routing-custom/src/lib.rs", "contracts/isms/routing/src/contract.rs", "contracts/igps/core/src/query.rs"],
 [("set/unset/list/get route, domains", "packages/router/src/lib.rs"), ("custom hook registry", "contracts/hooks/routing-custom/src/lib.rs"), ("pagination", "packages/router/src/lib.rs")],
 ["get_route, list_routes, domains, custom_hook(s), gas_for_destination queries"], [dict(name="routes", meaning="registered target per domain", where="packages/router/src/lib.rs")])

prop("C25", "Migration only moves forward, within the same contract, and keeps all state",
 "A migration is accepted only from an earlier version of the very same contract to the current one; from the same, a later or an unreadable version or from another contract it is refused with no effect. An accepted migration records the new version and changes nothing else: owner, configuration and all accounts stay as they were, and the contract works on. State stored by an earlier release is read by the migrated contract for what it was: every query answers as before (nothing delivered, announced, owned or configured is forgotten), and later operations go as they would have gone. A contract as instantiated records its name and a readable version.",
 ["inputs", "histories"], "all recorded versions (with any ordering subtlety, pre-releases included) and contract names, after any history of operations, for all contracts",
 "tests migrate few contracts once from one fixed version on empty storage",
 ["packages/interface/src/lib.rs", "contracts/core/mailbox/src/contract.rs", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs"],
 [("ensure_from_older_version in each migrate entry point", "each contract's migrate")],
 ["migrate outcome", "recorded contract name and version", "complete state and queries before and after"])

prop("C26", "The event log tells exactly what was dispatched, inserted, paid and delivered",
 "From the events of committed transactions alone, relayers and indexers can rebuild exactly which messages were dispatched (with full content and id), which were inserted into the tree and at which index, which gas payments were made for which message with what amount and refund, and which messages were delivered: nothing that happened is missing, and nothing is logged which did not happen. Failed or rolled-back calls log nothing.",
 ["histories", "inputs"], "all transactions (single, batched, partly failing) of dispatches, gas payments and deliveries with any content",
 "tests compare the attributes of single calls on mocks, and not with the ledger or with the outcome of the transaction",
 [MB+"execute.rs", MB+"event.rs", "contracts/hooks/merkle/src/lib.rs", "contracts/igps/core/src/event.rs", "contracts/igps/core/src/execute.rs"],
 [("dispatch/process events", MB+"event.rs"), ("insertion event", "contracts/hooks/merkle/src/lib.rs"), ("gas payment event", "contracts/igps/core/src/event.rs")],
 ["event log of each transaction", "call trace", "balances"])

prop("C27", "What enough validators signed can be delivered from public data, nothing else",
 "A message dispatched on one chain can be delivered on another by anyone, with metadata built only from the public queries and events of the two chains (announced storage locations, module type, route, modules, required validators, tree checkpoints) as soon as the effective security module, however composed, has the signatures it asks for; this remains so for old messages after later dispatches, relocated signatures and reconfigured modules. With fewer signatures, with anything altered, or for a dispatch that was rolled back, delivery is refused.",
 ["histories", "schedules", "configurations"], "all compositions of multisig, aggregate, routing and pausable modules, and all histories of dispatches, partial signing, reconfiguration and (hostile) delivery attempts between two chains",
 "each unit test looks at one contract; that the parts fit together (digest on both sides, indices, address forms, discovery queries) is checked by no executed test",
 [MB+"execute.rs", "contracts/hooks/merkle/src/lib.rs", "contracts/core/va/src/contract.rs", "contracts/isms/multisig/src/query.rs", "contracts/isms/aggregate/src/lib.rs", "contracts/isms/routing/src/contract.rs", "packages/interface/src/types/crypto.rs"],
 [("dispatch and insertion on the origin", MB+"execute.rs"), ("verification requirement and verdict on the destination", "contracts/isms/*/src"), ("digests", "packages/interface/src/types/crypto.rs")],
 ["delivery outcome", "calls reaching recipients", "public queries and events of both chains"])

LIBTECH = "runtime monitoring: randomized and malformed inputs to the public library, judged online against independent reference implementations"

prop("C22", "Messages and metadata are encoded and decoded in exactly the protocol layout",
 "A message, a token transfer body, and the metadata of the multisig, merkle-root multisig, aggregate and gas paymaster modules encode to exactly the protocol's byte layout and decode from it to the same fields; encoding and decoding are inverse to each other, and a message's id is the keccak hash of its encoding. Bytes too short for the layout, or ranges outside of them, never decode to a value.",
 ["inputs"], "all field values and lengths, all byte strings (complete, truncated, extended, with ranges anywhere)",
 "tests encode and decode one fixed example per type, and some types none",
 ["packages/interface/src/types/message.rs", "packages/interface/src/types/metadata.rs", "packages/interface/src/warp/mod.rs"],
 [("Message codec and id", "packages/interface/src/types/message.rs"), ("metadata codecs", "packages/interface/src/types/metadata.rs"), ("transfer body codec", "packages/interface/src/warp/mod.rs")],
 ["results of the public conversion functions"], tech=LIBTECH)

prop("C23", "Addresses convert without loss, and hashes are the standard ones",
 "A 20 or 32 byte account converts from its bech32 form to the 32 byte form and back to the same text, on this chain and with the same account on another chain's prefix; only a 32 byte account with twelve leading zero bytes is taken for a 20 byte one. Every other length, an unusable prefix and any text with a wrong character are refused. Keccak, signed-message, SHA-256, RIPEMD-160 hashes and the ethereum and cosmos addresses of a public key are the standard ones.",
 ["inputs"], "all accounts (with any leading zeros), prefixes, lengths, corruptions, hash inputs and keys",
 "tests convert a dozen fixed addresses; no short, zero-led, corrupted or over-long one",
 ["packages/interface/src/types/bech32.rs", "packages/interface/src/types/crypto.rs"],
 [("bech32_encode/decode/to_h256", "packages/interface/src/types/bech32.rs"), ("hash functions", "packages/interface/src/types/crypto.rs")],
 ["results of the public conversion and hash functions"], tech=LIBTECH)

prop("C28", "A token route uses exactly the mailbox, module and hook its owner set",
 "The mailbox, security module and hook reported by a token route are the ones in effect: it accepts deliveries from and sends through exactly its configured mailbox, a delivery to it is judged by exactly its configured module (the mailbox's default only if none is set), and a transfer uses the hook of the call, else the configured one, else the mailbox's default. Only the owner can change these settings, to a valid address, and a change takes effect at once.",
 ["histories", "configurations"], "all histories of settings, deliveries through several mailboxes with any module verdicts, forged deliveries and transfers, in all four kinds of route",
 "tests set and read back each value once on mocks; that the value is the one used is not checked",
 ["packages/connection/src/lib.rs", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs"],
 [("connection setters and queries", "packages/connection/src/lib.rs"), ("use of mailbox, ism and hook", "contracts/warp/*/src/contract.rs")],
 ["delivery and transfer outcome", "verify and post-dispatch calls", "connection and ism_specifier queries"],
 [dict(name="mailbox", meaning="the trusted mailbox", where="contracts/warp/*/src/lib.rs"), dict(name="conn::ism, conn::hook", meaning="own module and hook", where="packages/connection/src/lib.rs")])

prop("C30", "What the mailbox quotes is exactly what a dispatch costs, for any composed hooks",
 "For hooks composed in any way (protocol fee, gas paymaster, merkle tree, pausable, aggregate and routing hooks in each other), a dispatch or token transfer paid with exactly the mailbox's quote for it succeeds, takes exactly that from the payer, and every hook that charges receives exactly its own charge with nothing left anywhere between; paying less in any denomination is refused with no effect. A message whose hooks cannot be reached or priced is neither quoted nor dispatched, and one blocked by a paused hook is not dispatched.",
 ["inputs", "configurations", "histories"], "all compositions of the repository's hooks as required, default or chosen hook, histories of their reconfiguration, destinations, recipients, metadata, payments and both callers",
 "each hook is tested alone with mocked neighbours; no test composes two real ones or pays them from a real balance",
 [MB+"execute.rs", MB+"query.rs", "contracts/hooks/aggregate/src/lib.rs", "contracts/hooks/routing/src/lib.rs", "contracts/hooks/routing-custom/src/lib.rs", "contracts/hooks/routing-fallback/src/lib.rs", "contracts/hooks/fee/src/lib.rs", "contracts/igps/core/src/execute.rs", "packages/interface/src/hook/mod.rs"],
 [("quote and fee split", MB+"execute.rs"), ("post_dispatch and quote_dispatch of every hook", "contracts/hooks/*/src/lib.rs, contracts/igps/core/src")],
 ["quote_dispatch query", "balances of everybody before and after", "tree counts"])

prop("C31", "The merkle library computes the standard tree at every size, and sound proofs",
 "Starting empty or from any later state, inserting a leaf and reading the root give exactly the standard incremental 32-level tree, up to 2^32-1 leaves after which insertion is refused. The root computed from a leaf's inclusion proof equals the tree's root, and with another leaf, sibling or position it does not. The built-in zero hashes are those of empty subtrees.",
 ["inputs", "histories"], "all leaves, branches, counts and positions, and alterations of each",
 "tests insert a few recorded leaves; sizes with long carries, the full tree and altered proofs are not reached",
 ["packages/interface/src/types/merkle.rs"], [("insert, root, branch_root", "packages/interface/src/types/merkle.rs")],
 ["results of the public tree functions"], tech=LIBTECH)

prop("C32", "The same history always has the same effect",
 "Whatever the contracts do is determined by the chain's history alone: the same calls in the same order from the same beginning store exactly the same entries with the same contents, emit the same messages and events in the same order, move the same money and give the same answers, every time and in every process. Nodes that execute the same block therefore never disagree.",
 ["histories", "configurations"], "all histories of all contracts, executed anywhere",
 "a test executes everything once, in one process, and compares with expectations, not with another execution",
 ["contracts/core/mailbox/src", "contracts/hooks", "contracts/igps", "contracts/isms", "contracts/warp", "packages/router/src/lib.rs", "packages/interface/src"],
 [("every entry point", "contracts/*/*/src"), ("lists answered and events", "packages/router/src/lib.rs")],
 ["every storage write, message, event, answer and outcome of two executions"])

prop("C33", "What an operation costs does not grow with what others did before",
 "The storage an operation reads and writes, the contract calls it makes and the messages, events and answers it produces do not grow with the chain's history: dispatching, delivering, transferring, paying for gas, a validator's announcement, a single setting and a single look-up cost the same after any number of earlier dispatches, deliveries, transfers, payments, other validators' announcements and settings for other keys (up to the digits of a counter). A setting made and withdrawn leaves no growing remainder. So nobody can make the bridge unusable by using it.",
 ["histories"], "all lengths and sorts of history before an operation",
 "tests have histories of a few operations and measure no cost",
 [MB+"execute.rs", MB+"state.rs", "contracts/hooks/merkle/src/lib.rs", "contracts/igps/core/src/execute.rs", "contracts/igps/oracle/src/contract.rs", "contracts/isms/multisig/src", "contracts/isms/routing/src/contract.rs", "contracts/core/va/src/contract.rs", "contracts/warp", "packages/router/src/lib.rs"],
 [("deliveries, nonce and latest id", MB+"state.rs"), ("tree of 32 branches", "packages/interface/src/types/merkle.rs"), ("maps by key", "packages/router/src/lib.rs")],
 ["storage reads and writes and their bytes, contract calls, bytes of messages, events and answers"])

prop("C34", "Strangers cannot change what happens to the others",
 "Whatever accounts without a role do - calling any contract with any message, dispatching and transferring on their own account, donating money, getting ahead of a delivery or an announcement, running a second installation - the others' operations are accepted or refused as they would have been, cost them the same, deliver the same messages and tokens to the same recipients, and leave the same settings, owners and announcements. (An aggregate hook's unused overpayment is the one thing a stranger can give away to others.)",
 ["histories", "schedules"], "all interleavings of honest operations with all strangers' operations",
 "tests try single forbidden calls; that permitted calls of one party have no effect on another's later operation is not tested anywhere",
 [MB+"execute.rs", "contracts/hooks", "contracts/igps/core/src/execute.rs", "contracts/isms", "contracts/core/va/src/contract.rs", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs", "packages/ownable/src/lib.rs"],
 [("every entry point open to anybody", "contracts/*/*/src")],
 ["acceptance, quotes, balances, deliveries, announcements and settings in two installations, one of them disturbed"])

prop("C35", "All or nothing: when any step of an operation fails, all of it does",
 "If any message a contract emits in the course of an operation fails (a hook, a payment, a refund, a token transfer, a creation, the recipient's handling), or any question it asks another contract or the bank is answered by an error, the whole operation fails: nothing is stored, no money moves and no message counts as dispatched or delivered; done again without the failure it succeeds.",
 ["fault_sequences", "crash_points", "configurations"], "every operation with every single failing step",
 "tests run against mocks which answer as expected; failures of a step in the middle occur in hardly any, and none checks what remains",
 [MB+"execute.rs", "contracts/hooks", "contracts/igps/core/src/execute.rs", "contracts/isms", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs", "packages/interface/src"],
 [("messages emitted", "contracts/*/*/src"), ("queries of other contracts", "packages/interface/src")],
 ["outcome, storage of all contracts and all balances after a failed step"])

#EXTRA#

TECH = "runtime monitoring: randomized hostile histories on the real contracts in a simulated chain, judged online by a reference-model monitor"
NOTE = "Exploration: the monitor judged every observation of the histories it generated (seeded, several thousand per run) against an independent reference model; unseen inputs and histories are not covered. Trusts the simulated chain's wasmd message semantics (ordering, roll-back, bank, token factory), the reference model and the host build of the contracts with overflow checks as in the release profile."
P.sort(key=lambda p: p[0]["id"])
with open(B + "/properties.jsonl", "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} --tier quick", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
    technique=t or TECH, level="exploration", level_note=(n + " " if n else "") + NOTE) for p, n, t in P]
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=[], notes="No hooks in /repo: everything is observed through the contracts' public messages, queries, events and the simulated chain's ledger. Known findings and fixed defects: KNOWN_FINDINGS. Design: DESIGN.md.")
open(B + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
