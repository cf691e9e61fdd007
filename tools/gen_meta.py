#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed output; run by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "solana/programs/example-native-token-transfers/src/"
T = "solana/programs/ntt-transceiver/src/"
Q = "solana/programs/ntt-quoter/src/"
G = "solana/programs/wormhole-governance/src/"
N = "solana/modules/ntt-messages/src/"

ALL = ["schedules", "crash_points", "inputs", "histories", "configurations", "fault_sequences"]
TESTS = "The 17 unit tests exercise the amount type, the bitmap, the rate limiter arithmetic and message (de)serialisation in isolation; none of them runs an instruction, so "

P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=TESTS + why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Tokens are neither created nor destroyed across chains",
 "Over all deployed chains together, circulating tokens plus transfers in flight never exceed what was there at the start: an outbound transfer removes exactly the sent amount from the sender (locked in custody, or burned), and tokens are unlocked or minted only against a transfer that was really sent, addressed to that chain, and not already paid out. On a locking chain custody is never paid out for anything else, and on a burning chain supply changes only by such burns and mints. A transaction that fails at any point changes no balance.",
 ALL, "every multi-chain history of transfers, relays, releases, donations, duplications, losses, reorderings and aborted transactions, in locking and burning deployments and with every decimals combination",
 "the sum over several ledgers and the messages between them is never formed.",
 [M+"instructions/transfer.rs", M+"instructions/release_inbound.rs", M+"instructions/redeem.rs", M+"queue/inbox.rs", M+"queue/outbox.rs"],
 [("lock/burn before an outbox item is written", M+"instructions/transfer.rs"), ("unlock/mint only of a released inbox item", M+"instructions/release_inbound.rs")],
 [("custody balance", "tokens locked on this chain", M+"config.rs"), ("mint supply", "tokens on a burning chain", "token program")],
 ["token account and mint balances after every transaction", "sum over ledgers and in-flight messages"])

prop("C02", "Each inbound transfer pays out once, in full, to its recipient",
 "A cross-chain transfer is paid out at most once on its destination, no matter how often, in what order or by whom its message is posted, received, redeemed or released, or where a transaction dies. The payout is exactly the transferred amount expressed in the local token's decimals, and it goes to the associated token account of the recipient named in the message and nowhere else. A release that arrives too early, or again after the payout, moves nothing.",
 ALL, "every interleaving of duplicated, reordered and killed receive/redeem/release transactions by any payer, with any substituted accounts",
 "no duplicate delivery and no release is ever executed.",
 [M+"instructions/release_inbound.rs", M+"instructions/redeem.rs", M+"queue/inbox.rs", N+"trimmed_amount.rs"],
 [("release status moves forward only", M+"queue/inbox.rs"), ("inbox item address derived from the message digest", M+"instructions/redeem.rs"), ("recipient must be the recipient's associated token account", M+"instructions/release_inbound.rs")],
 [("inbox item", "amount, recipient, votes and release status of one inbound message", M+"queue/inbox.rs")],
 ["recipient token balances", "payout history per message"])

prop("C03", "Only authentic messages from the registered peer are accepted",
 "An inbound message is accepted only if it was published by the peer transceiver registered for its source chain and attested by the guardians (a genuine attestation account of the core bridge), and it counts towards a payout only if it also came from the token manager peer registered for that chain and is addressed to this token manager and this chain. Its amount, recipient, source and id are recorded exactly as sent. Anything forged, altered, unsigned, mis-addressed, unparsable, or held in a look-alike account owned by another program is refused without effect.",
 ["inputs", "histories", "schedules", "configurations", "fault_sequences"], "every message, genuine or forged, wrong emitter, wrong emitter chain, wrong manager, wrong destination, truncated or extended payload, and every substituted account",
 "no message is ever received.",
 [M+"transceivers/wormhole/instructions/receive_message.rs", T+"wormhole/instructions/receive_message.rs", M+"instructions/redeem.rs", M+"messages.rs", N+"ntt_manager.rs", N+"transceivers/wormhole.rs", M+"transceivers/wormhole/accounts.rs"],
 [("emitter and chain equal the registered transceiver peer", M+"transceivers/wormhole/instructions/receive_message.rs"), ("source manager equals the registered manager peer; recipient manager and chain are ours", M+"instructions/redeem.rs")],
 [("peer", "the one accepted manager address per chain", M+"peer.rs")],
 ["accept/reject of receive and redeem", "contents of the validated message account"])

prop("C04", "A payout needs the configured quorum of distinct enabled transceivers",
 "An inbound transfer becomes payable only when at least the configured threshold of distinct, registered and currently enabled transceivers have each attested the identical message; exactly one vote is counted per transceiver however often it attests, and votes for different messages never add up. Votes of disabled or unregistered transceivers do not count, and until the transfer is payable a registered, enabled transceiver's first attestation is always recorded.",
 ["schedules", "histories", "configurations", "inputs", "fault_sequences"], "every interleaving of votes from several transceivers (some Byzantine, fewer than the threshold), enabling and disabling, threshold changes and duplicate votes",
 "voting by several transceivers is never executed; only the bit operations of the vote bitmap are tested.",
 [M+"instructions/redeem.rs", M+"queue/inbox.rs", M+"bitmap.rs", M+"registered_transceiver.rs", M+"config.rs"],
 [("vote bitmap intersected with the enabled set, compared with the threshold", M+"instructions/redeem.rs")],
 [("votes", "one bit per transceiver id", M+"queue/inbox.rs"), ("enabled set and threshold", "who may vote and how many are needed", M+"config.rs")],
 ["votes and release status of the inbox item after every redeem"])

prop("C05", "Outbound transfers respect the 24-hour rate limit",
 "The outbound capacity never exceeds the configured limit, refills linearly over 24 hours from the last use, and an outbound transfer leaves without delay only if its amount fits the capacity at that moment, which it then consumes exactly. A transfer that does not fit is queued for 24 hours without consuming capacity if the sender allowed queueing, and is refused otherwise. Changing the limit moves the current capacity by the difference, never below zero and never above the new limit.",
 ["inputs", "histories", "schedules", "configurations"], "every sequence of transfers, limit changes and clock steps, with amounts and limits over the whole 64-bit range",
 "the limiter arithmetic is sampled at a few points and never together with transfers, limit changes and real clocks.",
 [M+"queue/rate_limit.rs", M+"queue/outbox.rs", M+"instructions/transfer.rs", M+"instructions/admin.rs"],
 [("capacity at a time, consume or delay", M+"queue/rate_limit.rs"), ("queue or refuse", M+"instructions/transfer.rs")],
 [("outbound rate limit", "limit, capacity at last use, last use time", M+"queue/outbox.rs")],
 ["release time of the outbox item", "stored limit, capacity and time"])

prop("C06", "Inbound transfers respect the per-chain 24-hour rate limit",
 "Each source chain has its own inbound limit: its capacity never exceeds the limit and refills linearly over 24 hours, and when an inbound transfer reaches its quorum it becomes payable immediately only if its amount in local decimals fits the remaining capacity of its own source chain, which it then consumes exactly; otherwise it becomes payable 24 hours later and consumes nothing. Traffic, limits and changes for one chain never affect another chain's inbound limit. Changing a limit moves that chain's current capacity by the difference, never below zero and never above the new limit; setting a peer starts that chain with a full fresh limit.",
 ["inputs", "histories", "schedules", "configurations"], "every sequence of redeems from several chains, limit changes and clock steps",
 "inbound limiting is never executed.",
 [M+"queue/rate_limit.rs", M+"queue/inbox.rs", M+"instructions/redeem.rs", M+"instructions/admin.rs"],
 [("per-chain limiter account derived from the chain id", M+"queue/inbox.rs"), ("consume or delay at quorum", M+"instructions/redeem.rs")],
 [("inbound rate limit", "one limiter per source chain", M+"queue/inbox.rs")],
 ["release time of the inbox item", "stored limiter of every chain"])

prop("C07", "Traffic in one direction refills the opposite limit",
 "An undelayed outbound transfer to a chain adds its amount to that chain's inbound capacity, and an undelayed inbound transfer adds its amount to the outbound capacity, each capped at the configured limit. Delayed transfers refill nothing, and no other chain's capacity changes.",
 ["inputs", "histories", "schedules", "configurations"], "every mix of inbound and outbound transfers, limits and clock steps",
 "the two limiters are never used together.",
 [M+"queue/rate_limit.rs", M+"instructions/transfer.rs", M+"instructions/redeem.rs"],
 [("refill of the opposite limiter", M+"instructions/transfer.rs"), ("refill of the outbound limiter", M+"instructions/redeem.rs")],
 [("capacity", "capacity at last use of each limiter", M+"queue/rate_limit.rs")],
 ["both limiters after every transfer and redeem"])

prop("C08", "Queued transfers wait out their delay, and not longer",
 "A queued transfer, outbound or inbound, is not published or paid out before its release time and can be at any moment from the release time on; its release time never changes once set. Asking too early fails if the caller asked to fail on delay, and otherwise succeeds without publishing, paying or marking anything.",
 ["schedules", "histories", "inputs", "fault_sequences", "configurations"], "every position of the clock relative to the release time, including the exact second, with both caller choices and limit changes in between",
 "no release is ever attempted around its release time.",
 [M+"instructions/release_inbound.rs", M+"queue/inbox.rs", M+"queue/outbox.rs", M+"transceivers/wormhole/instructions/release_outbound.rs", T+"wormhole/instructions/release_outbound.rs", M+"instructions/mark_outbox_item_as_released.rs"],
 [("release time compared with the ledger clock", M+"queue/outbox.rs"), ("release status", M+"queue/inbox.rs")],
 [("release timestamp", "earliest release", M+"queue/outbox.rs")],
 ["outcome of each release against the ledger clock"])

prop("C09", "Each outbound transfer is published once per transceiver, faithfully",
 "Every outbound transfer is published at most once by each transceiver that is registered and enabled at that moment, and by no other; only such a transceiver itself can mark a transfer as published by it. The published message carries exactly the transfer's id, sender, amount, token, recipient and destination, the two managers' addresses and the protocol's wire format, emitted by the transceiver's own emitter. A transaction that dies half-way neither publishes nor marks.",
 ALL, "every interleaving and duplication of release requests from several transceivers, disabled or enabled meanwhile, by any payer, with any substituted accounts and any bridge fee",
 "serialisation is tested on one fixed message; publishing is never executed.",
 [M+"transceivers/wormhole/instructions/release_outbound.rs", T+"wormhole/instructions/release_outbound.rs", M+"instructions/mark_outbox_item_as_released.rs", M+"queue/outbox.rs", N+"ntt_manager.rs", N+"transceivers/wormhole.rs", N+"ntt.rs"],
 [("released bitmap per outbox item", M+"queue/outbox.rs"), ("enabled transceiver and not yet released", M+"queue/outbox.rs")],
 [("outbox item", "content and release marks of one outbound transfer", M+"queue/outbox.rs")],
 ["messages recorded by the core bridge", "release marks"])

prop("C10", "Tokens leave an account only with its owner's consent",
 "Tokens are taken from an account only if its owner signed the transfer, or approved for exactly that transfer: the same amount, destination chain, recipient and queueing choice, and at most the approved balance. An approval cannot be used with any changed argument, from another account, or beyond its allowance. The recorded sender is the owner of the account the tokens came from.",
 ["inputs", "schedules", "histories", "fault_sequences"], "every approval, replayed, front-run or used with altered arguments or accounts by any submitter",
 "no transfer is ever executed.",
 [M+"instructions/transfer.rs"],
 [("session authority derived from owner and a hash of the arguments", M+"instructions/transfer.rs")],
 [("delegation", "token account delegate and allowance", "token program")],
 ["accept/reject of transfers against the approvals on the ledger"])

prop("C11", "Amounts survive trimming, dust and decimal conversion exactly",
 "The amount taken from the sender is the requested amount rounded down to what the message can carry (the smaller of the two chains' decimals, at most eight), so dust stays with the sender; the amount in the message and the amount paid out are that same value re-expressed in the respective decimals. An amount that cannot be represented, in particular one that would overflow 64 bits on conversion, is refused rather than wrapped, truncated or saturated. A transfer whose amount is zero, or zero after rounding, is treated consistently with this and moves nothing.",
 ["inputs", "configurations", "histories"], "every amount of the 64-bit range, every pair of decimals",
 "trimming is tested for a few decimals and never end to end from sender to recipient.",
 [N+"trimmed_amount.rs", M+"instructions/transfer.rs", M+"instructions/redeem.rs"],
 [("trim and untrim with checked arithmetic", N+"trimmed_amount.rs"), ("dust removal before locking or burning", M+"instructions/transfer.rs")],
 [("trimmed amount", "amount and decimals carried by a message", N+"trimmed_amount.rs")],
 ["sender balance, message amount and recipient balance of each transfer"])

prop("C12", "Pausing stops all value movement, and only that",
 "While a deployment is paused no transfer is accepted, no inbound message is received, nothing is published or marked as published and nothing is paid out, through any entry point or transceiver, and every such attempt leaves the state untouched. Administration, and recording votes on already received messages, keep working while paused. After unpausing, every operation works again and nothing in the queues was lost.",
 ["schedules", "histories", "inputs", "configurations"], "every point of every transfer's life at which the deployment is paused or unpaused",
 "pausing is never executed.",
 [M+"config.rs", M+"instructions/admin.rs", M+"instructions/transfer.rs", M+"instructions/release_inbound.rs", M+"transceivers/wormhole/instructions/receive_message.rs", M+"transceivers/wormhole/instructions/release_outbound.rs", M+"instructions/mark_outbox_item_as_released.rs", T+"wormhole/instructions/receive_message.rs"],
 [("not-paused constraint on each instruction", M+"config.rs")],
 [("paused", "the pause flag", M+"config.rs")],
 ["accept/reject of every operation while paused"])

prop("C13", "Only the owner can change a deployment's configuration",
 "Pausing, peers, rate limits, transceiver registration, transceiver peers and ownership change only in a transaction signed by the current owner, and then to exactly the given values and nothing else. A signer who is not (or no longer, or not yet) the owner is refused, and no account supplied by a caller can stand in for the real configuration.",
 ["inputs", "histories", "schedules", "configurations"], "every admin instruction, every signer (past, pending, present owner, strangers), every substituted account, in every state",
 "no admin instruction is ever executed.",
 [M+"instructions/admin.rs", M+"config.rs", M+"transceivers/wormhole/instructions/admin.rs", T+"wormhole/instructions/admin.rs"],
 [("owner constraint on each admin instruction", M+"instructions/admin.rs")],
 [("owner", "who may administer", M+"config.rs")],
 ["accept/reject of admin instructions", "unexplained changes of configuration accounts"])

prop("C14", "Ownership moves in two steps together with the upgrade authority",
 "Ownership passes only from the owner to an account the owner nominated, and in the two-step flow only once the nominee claims it; until then the owner can take it back, and nobody else can claim. The program's upgrade authority moves together with ownership: it stays with the owner, except between a nomination and its claim or cancellation, when it is held by the program itself and by nobody else. A failed or aborted step leaves owner, nominee and upgrade authority as they were.",
 ALL, "every sequence of nominations, cancellations, claims and one-step transfers by any signer, with transactions dying between the two authority changes",
 "ownership transfer and its two loader calls are never executed.",
 [M+"instructions/admin.rs", M+"config.rs", G+"instructions/governance.rs"],
 [("upgrade lock account takes the authority until the claim", M+"instructions/admin.rs")],
 [("owner and pending owner", "current and nominated owner", M+"config.rs"), ("upgrade authority", "who may replace the program", "upgradeable loader")],
 ["owner, pending owner and upgrade authority after every transaction"])

prop("C15", "Transceivers are registered once, with unique stable ids",
 "Each registered transceiver gets the next unused id, keeps it for ever, and can be registered only once; ids are never shared or reused. Registering enables it and affects no other transceiver, at most as many as there are ids can be registered, and only an executable program can be registered. The votes and publication marks of one transceiver are never attributed to another.",
 ["inputs", "histories", "schedules", "configurations"], "every sequence of registrations, up to and beyond the id space, mixed with votes and releases",
 "registration is never executed.",
 [M+"instructions/admin.rs", M+"registered_transceiver.rs", M+"bitmap.rs", M+"config.rs"],
 [("id counter in the configuration", M+"instructions/admin.rs"), ("registration account derived from the transceiver address", M+"registered_transceiver.rs")],
 [("next transceiver id", "counter", M+"config.rs"), ("registration", "address to id", M+"registered_transceiver.rs")],
 ["registration accounts, counter and enabled set after every registration"])

prop("C16", "A deployment locks or burns, never both",
 "A deployment set up for locking only locks and unlocks through its one custody account, never mints or burns; one set up for burning only burns and mints exactly the transferred amounts, and any balance its custody happens to hold is left alone. Instructions of the other mode are refused, and only the deployment's own token mint, token program, custody and authority can be used.",
 ["inputs", "configurations", "histories"], "every deployment mode, every instruction of either mode, every substituted mint, custody, authority or token program",
 "no transfer or release is ever executed.",
 [M+"instructions/transfer.rs", M+"instructions/release_inbound.rs", M+"instructions/initialize.rs", N+"mode.rs", M+"config.rs"],
 [("mode constraint on each instruction", M+"instructions/transfer.rs"), ("custody and mint pinned in the configuration", M+"config.rs")],
 [("mode", "locking or burning", M+"config.rs")],
 ["mint supply and custody balance after every transaction"])

prop("C17", "A deployment is initialised once, by its deployer, and pinned",
 "A deployment is initialised exactly once, only by the holder of the program's upgrade authority, and a burning deployment only if the program already controls minting. Initialisation records the caller as owner and the given mode, chain, limit and token, unpaused, with full outbound capacity. Mode, chain id, token mint, token program and custody never change afterwards.",
 ["inputs", "histories", "configurations", "schedules"], "every order of initialisation attempts by deployer and strangers, before and after ownership and authority changes, with every mint",
 "initialisation is never executed.",
 [M+"instructions/initialize.rs", M+"config.rs"],
 [("deployer must be the upgrade authority", M+"instructions/initialize.rs"), ("configuration account created once", M+"instructions/initialize.rs")],
 [("configuration", "pinned identity of the deployment", M+"config.rs")],
 ["configuration after initialisation and after every later transaction"])

prop("C18", "Transfer hooks run on every leg; fee tokens are refused",
 "For a token with a transfer hook, every movement between users and the deployment, outbound or inbound, in either mode, runs the hook exactly as a plain transfer of that token would, and is refused if the hook refuses. A token that withholds a fee so that custody receives less than was sent is refused on the way in rather than credited in full.",
 ["inputs", "configurations", "histories", "fault_sequences"], "every transfer and release of tokens with hooks (accepting or refusing) and fees",
 "no token movement is ever executed.",
 [M+"instructions/transfer.rs", M+"instructions/release_inbound.rs", "solana/programs/dummy-transfer-hook/src/lib.rs"],
 [("hook-aware token transfer with the remaining accounts", M+"instructions/transfer.rs"), ("custody balance compared with the amount sent", M+"instructions/transfer.rs")],
 [("hook counter", "how often the hook ran", "solana/programs/dummy-transfer-hook/src/lib.rs")],
 ["number of hook executions per transaction"])

prop("C19", "Governance executes exactly the signed instruction, once",
 "The governance program runs an instruction only if it is carried by a genuine guardian attestation from the governance emitter and chain, addressed to this chain and this program, and it runs exactly the attested instruction: same target program, accounts, privileges and data, with the governance authority standing in where the message says so. Each attestation is executed at most once, even if it is submitted twice, reordered or its first attempt failed; a failed attempt does not use it up.",
 ALL, "every genuine, forged, altered, truncated, replayed or mis-addressed governance message, with aborted and duplicated executions",
 "the governance program is left out of the stock build altogether, and only its (de)serialisation has unit tests.",
 [G+"instructions/governance.rs", G+"error.rs"],
 [("emitter, module and chain checks", G+"instructions/governance.rs"), ("replay account per attestation", G+"instructions/governance.rs")],
 [("replay protection", "one account per executed attestation", G+"instructions/governance.rs")],
 ["the instruction the program invokes", "effects on the governed deployment"])

prop("C20", "Relay requests charge exactly the quoted fee and can be closed safely",
 "Requesting a relay costs the payer exactly the quote computed from the registered prices and gas parameters of the transfer's destination and deployment (base price plus drop-off and gas at the native price, converted at the SOL price, but at least the request account's rent), held by the request account together with the requested drop-off. It is refused without charge if the quote exceeds the caller's maximum, the drop-off exceeds the chain's maximum, the SOL price is unset, the chain is disabled or unregistered, the computation would overflow, or the transfer is not a genuine one of a registered deployment already published by its wormhole transceiver; a transfer has at most one open request. Only the quoter's owner or assistant can close a request, and closing pays its whole balance to the fee recipient.",
 ["inputs", "histories", "schedules", "configurations", "fault_sequences"], "every price, fee and gas parameter, every drop-off and maximum over 64 bits, every duplicated or killed request",
 "quoting is tested at sample prices; no request is ever executed.",
 [Q+"processor/request_relay.rs", Q+"processor/close_relay.rs", Q+"state.rs"],
 [("price computation with wide intermediates", Q+"processor/request_relay.rs"), ("request account derived from the transfer", Q+"processor/request_relay.rs")],
 [("relay request", "paid request for one transfer", Q+"state.rs")],
 ["lamports of payer, fee recipient and request account", "request contents"])

prop("C21", "Only quoter owner and assistant administer the quoter, each in its role",
 "The quoter's assistant and fee recipient change only when signed by the quoter's owner, and prices, chain parameters and chain or deployment registrations only when signed by the owner or the current assistant, each to exactly the given values and nothing else; everyone else, including a former assistant, is refused. The quoter is initialised once, by its upgrade authority's holder, who becomes owner. A zero SOL price and a default fee recipient are refused, and a newly registered chain stays disabled until its base price is set.",
 ["inputs", "histories", "schedules", "configurations"], "every quoter admin instruction by every signer in every state, with substituted accounts",
 "no quoter admin instruction is ever executed.",
 [Q+"processor/admin.rs", Q+"processor/update_prices.rs", Q+"processor/close_relay.rs", Q+"state.rs"],
 [("owner / owner-or-assistant constraints", Q+"state.rs")],
 [("quoter instance", "owner, assistant, fee recipient, SOL price", Q+"state.rs")],
 ["accept/reject of quoter admin instructions", "quoter accounts"])

prop("C22", "Transceiver peers are set once and announcements are truthful",
 "The peer transceiver of a chain can be set once and never changed, and is used for exactly that chain. Announcements published by a transceiver state exactly its own manager, token, decimals and mode, or exactly the registered peer of the announced chain, in the protocol's wire format and from its own emitter.",
 ["inputs", "histories", "schedules", "configurations", "fault_sequences"], "every sequence of peer settings and announcements by anybody, with substituted accounts and killed transactions",
 "neither peer setting nor announcements are ever executed; the announcement formats have one fixed sample each.",
 [M+"transceivers/wormhole/instructions/admin.rs", M+"transceivers/wormhole/instructions/broadcast_id.rs", M+"transceivers/wormhole/instructions/broadcast_peer.rs", T+"wormhole/instructions/broadcast_id.rs", T+"wormhole/instructions/broadcast_peer.rs", T+"wormhole/instructions/admin.rs", N+"transceivers/wormhole.rs"],
 [("peer account created, never overwritten", M+"transceivers/wormhole/instructions/admin.rs")],
 [("transceiver peer", "one address per chain", M+"transceivers/wormhole/accounts.rs")],
 ["peer accounts", "messages recorded by the core bridge"])

prop("C23", "The lookup table always lists the deployment's true accounts",
 "The deployment's lookup table, once built or rebuilt, is controlled by the program's own authority and lists the deployment's accounts: the program itself, its configuration, custody, token, token program, token authority and outbound limit are the true ones, and the core bridge program is the genuine one (the bridge accounts of the transceiver that the caller chose are listed as given). Anyone may (re)build it, but nobody can point the deployment at a table in which any of those is another account, and a failed rebuild leaves the previous table in place.",
 ["inputs", "histories", "schedules", "crash_points", "fault_sequences"], "every sequence of builds and rebuilds by anybody at any slot, aborted at any call",
 "the lookup table is never built.",
 [M+"instructions/luts.rs"],
 [("entries collected from verified accounts", M+"instructions/luts.rs")],
 [("lookup table record", "the table in use", M+"instructions/luts.rs")],
 ["table address, authority and entries"])

prop("C24", "Once faults stop, every valid transfer is delivered",
 "Once messages are delivered again, clocks advance and the deployment is unpaused, every transfer that was accepted is published, attested, redeemed and paid out within a bounded number of relay rounds plus its queueing delay, whatever losses, duplications, crashes, partial deliveries, pre-funded accounts or hostile submissions happened before, and without anyone's cooperation beyond a willing relayer. No stranger can make a valid step of somebody else's transfer permanently impossible.",
 ALL, "every finite prefix of faults and hostile actions, followed by a fault-free suffix",
 "no multi-step history is ever executed.",
 [M+"instructions/redeem.rs", M+"instructions/release_inbound.rs", M+"instructions/transfer.rs", M+"transceivers/wormhole/instructions/release_outbound.rs", M+"transceivers/wormhole/instructions/receive_message.rs"],
 [("every step idempotent or restartable, submitted by anyone", M+"instructions/redeem.rs")],
 [("queues", "inbox and outbox items", M+"queue/inbox.rs")],
 ["delivery of every accepted transfer within the bounded fault-free suffix"])

prop("N01", "The EVM contracts keep the same guarantees",
 "The Solidity token manager and transceivers conserve tokens, pay each message out once, honour quorum, rate limits, pausing and ownership as the Solana programs do.",
 ["inputs", "histories", "schedules", "configurations"], "every history of EVM transactions",
 "the Solidity sources are not even compiled by the stock build.",
 ["evm/src/NttManager/NttManager.sol", "evm/src/NttManager/ManagerBase.sol", "evm/src/libraries/RateLimiter.sol", "evm/src/Transceiver/WormholeTransceiver/WormholeTransceiver.sol"],
 [("Solidity contracts", "evm/src")])
prop("N02", "SDK and CLI build transactions that do what the user asked",
 "The TypeScript SDK and CLI derive the same addresses, encode the same messages and build transactions with the effect the user requested, on every supported platform.",
 ["inputs", "configurations"], "every argument and configuration",
 "no TypeScript is built or run by the stock build.",
 ["sdk", "cli", "solana/ts"],
 [("TypeScript client libraries", "solana/ts")])

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

LEVEL = ("Seeded search, not proof: a quick run simulates some 20,000 fault-laden multi-ledger histories (about 2 million real transactions), "
 "thorough about 50 times that. Every transaction's accept/reject decision and post-state is compared with an executable reference model, plus state and history invariants. "
 "Trusted: the mini-SVM (native execution of the real programs through their entry points), the reference model, guardians signing only what the core bridge recorded.")
manifest = dict(version=1, setup_cmd="bash build.sh",
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
     technique="deterministic simulation with fault injection (seeded search, reference-model oracle)", level="exploration", level_note=LEVEL)
     for p in P if p["id"].startswith("C")],
  not_applicable=[
   dict(property="N01", reason="The EVM contracts are Solidity; the sandbox has neither a Solidity compiler nor an EVM, so their real code cannot be run inside a simulator. EVM chains take part in the simulation as a reference model only."),
   dict(property="N02", reason="The SDK and CLI need npm packages that are not installed here, and are sequential client code: the properties that depend on schedules and faults are those of the on-chain programs they call."),
  ],
  notes="No hooks in /repo: the programs' entry points and account interface are the seam. replay.sh FILE re-executes a replay file; the simulator's own determinism test is 'sim/target/release/ntt-sim determinism --runs N'.")
json.dump(manifest, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
