#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

PID = "common/src/payment_id.rs"
MLA = "common/src/multilocation_asset_id.rs"
PAY = "pallets/payments/src/lib.rs"
PTY = "pallets/payments/src/types.rs"
COM = "pallets/communities/src/lib.rs"
COF = "pallets/communities/src/functions.rs"
COT = "pallets/communities/src/types.rs"
COI = "pallets/communities/src/impls.rs"
COO = "pallets/communities/src/origin.rs"
MGR = "pallets/communities-manager/src/lib.rs"
KR = "runtime/kreivo/src/"

# ---------------------------------------------------------------- common
prop("C01", "A payment id and its 64-bit number convert both ways without loss",
 "Every 64-bit number denotes exactly one payment id and every payment id maps back to the number it came from. The number is laid out, least significant byte first, as two recipient-prefix bytes, a 16-bit extrinsic index and a 32-bit block number, and every accessor (number, bytes, block, extrinsic index) agrees with that layout.",
 ["inputs"], "all 2^64 numbers; explored as every product of a sharp byte alphabet over the eight bytes plus all 256x256 values of every pair of byte positions",
 "The unit tests convert only u64::MAX, where every byte is equal, so swapped fields, wrong endianness or truncation in a single byte are invisible.",
 [PID], [("From<u64>/From<PaymentId> byte layout", PID), ("repr(C) AsRef<[u8]>", PID)],
 [("prefix/index/block", "the three fields packed in the number", PID)], ["to_number", "from_number", "to_bytes", "block_number", "extrinsic_index"])
prop("C02", "A payment id written as text reads back as the same id",
 "The plain text and the pretty text (with a dash after the fifth character) of any payment id both parse back to that same id. The pretty text is the plain text with exactly one dash inserted, the text is the base58 rendering of the id's eight bytes, and two different ids never share a text.",
 ["inputs"], "all payment ids (byte-alphabet product and all pairs of byte positions, including ids with any number of leading zero bytes, whose text is shorter)",
 "The tests print two ids and parse one; ids with leading zero bytes or short texts are never printed.",
 [PID], [("Display", PID), ("FromStr", PID)], None, ["Display (plain and alternate)", "encode(pretty)", "parse", "new"])
prop("C03", "Text that is not a payment id is refused and never crashes the parser",
 "Parsing arbitrary text never panics. Text is accepted only when, ignoring at most one dash, it is the full-length textual form of an id, and then yields that id; everything else (wrong length, foreign characters, two dashes, numbers too large) is an error, and the lenient constructor turns it into the default id.",
 ["inputs"], "all short strings over a sharp alphabet, every single-character substitution, insertion, deletion, truncation and dash position of valid texts, long and non-ASCII texts",
 "No test parses an invalid text.",
 [PID], [("FromStr length and alphabet handling", PID)], None, ["parse", "new"])
prop("C04", "A derived payment id carries its block, index and recipient prefix",
 "An id derived from a block number, an extrinsic index and recipient data reports that block number, the low 16 bits of that index and the first two recipient bytes, and nothing else influences it. Ids derived from two triples are equal only if those three components are equal.",
 ["inputs"], "all (block, index, recipient data) triples over boundary and bit-walking values, recipient data of every length from 2 to 33",
 "Two triples are derived in tests; indices above 16 bits appear only with every bit set.",
 [PID, KR + "payments.rs"], [("From<(u32, u32, &[u8])>", PID)], None, ["block_number", "extrinsic_index", "to_bytes"])
prop("C05", "A stored payment id is encoded exactly like its 64-bit number",
 "The SCALE encoding of a payment id is the 8-byte little-endian encoding of its number, reported maximum and fixed sizes equal it, and decoding inverts encoding. Decoding fewer than eight bytes fails and decoding never consumes more than eight.",
 ["inputs"], "all payment ids (byte products and pairs), all input lengths from 0 to 10",
 "The storage codec is behind a feature no existing test builds.",
 [PID], [("runtime::Encode/Decode/MaxEncodedLen", PID)], None, ["Encode", "Decode", "MaxEncodedLen"])
prop("C06", "Asset ids and cross-chain locations correspond one to one",
 "Every asset id converts to a location that converts back to the same asset id, and every location that converts to an asset id is exactly the location that id converts to. Any other location (other networks, pallets, depths, junction orders, out-of-range numbers) is refused, and conversion never panics.",
 ["inputs"], "all asset ids over boundary values; all locations with 0-3 parents and up to 4 (thorough: 5) junctions from a sharp junction alphabet including out-of-range indices",
 "The conversion has no test at all.",
 [MLA], [("AsFungibleAssetLocation", MLA), ("NetworkId conversions", MLA)], None, ["convert", "convert_back"])
prop("C07", "The stored form of an asset id is stable, lossless and bounded",
 "The SCALE encoding of every asset id follows the fixed published layout (variant number, then fields in order), decodes back to the same id, never exceeds the declared maximum size, and different ids have different encodings. Bytes that do not start with a valid encoding are refused.",
 ["inputs"], "all asset ids over boundary values, every truncation of their encodings, every variant byte",
 "The codec is derived behind a feature no existing test builds; reordering variants or fields compiles and silently re-keys stored assets.",
 [MLA], [("derived SCALE codec", MLA)], None, ["Encode", "Decode", "MaxEncodedLen"])

# ---------------------------------------------------------------- payments
PSTATE = [("Payment", "open and finished payments by sender and id", PAY), ("PaymentParties", "sender and beneficiary of an id", PAY)]
PH = "all interleavings of payment calls by sender, beneficiary, stranger, resolver and root, and of passing blocks, up to the search depth, over several fee schedules, amounts and initial balances"
PWHY = "The unit tests run a dozen fixed single-payment scripts with one amount and one fee schedule."
prop("P01", "Payment operations never create or destroy funds",
 "For every asset, the total supply and the sum of all account holdings (free plus held) are unchanged by every payment operation, whether it succeeds or fails, including refunds executed later by the scheduler.",
 ["histories", "configurations"], PH, PWHY + " None of them sums balances.",
 [PAY, PTY], [("reserve/settle/cancel transfers", PAY)], PSTATE, ["asset balances", "total issuance"])
prop("P02", "Every open payment stays fully backed by held funds",
 "At any time the amount held for payments on each account equals exactly what the open payments require of it: the payment amount on the beneficiary, and the incentive plus sender fees on the sender, plus the beneficiary's dispute incentive while a dispute is under review. When no payment is open nothing remains held.",
 ["histories", "configurations"], PH, PWHY + " Holds are checked only right after one payment is created.",
 [PAY, PTY], [("reserve_payment_amount / cancel_payment / settle_payment", PAY)], PSTATE, ["balance on hold per account and asset"])
prop("P03", "Only the right party can move a payment, and only along its lifecycle",
 "A payment changes state only by: creation, release by its sender, cancellation by its beneficiary, refund request by its sender, dispute by its beneficiary while a refund is pending, resolution of a disputed payment by the resolver, acceptance of a requested payment by its payer, or its scheduled refund. Each step is possible only in the states the lifecycle allows; every other attempt fails and changes nothing.",
 ["histories", "schedules"], PH, PWHY + " Out-of-order calls and calls by other parties are tried in a handful of states only.",
 [PAY], [("state ensures in each call", PAY), ("PaymentParties lookups", PAY)], PSTATE, ["payment state", "call result", "storage after failure"])
prop("P04", "Releasing a payment pays everyone exactly what the fee schedule says",
 "On release, or when a requested payment is accepted, the beneficiary nets the amount minus the beneficiary fees, every fee receiver gets exactly its sender and beneficiary fees, and the sender in total pays the amount plus the sender fees and gets the incentive back. The payment is then finished and cannot be settled again.",
 ["histories", "configurations"], PH, PWHY + " One fee schedule with distinct receivers is exercised.",
 [PAY, PTY], [("settle_payment", PAY), ("get_summary", PTY)], PSTATE, ["asset balances before and after"])
prop("P05", "Cancelling or refunding a payment restores the sender completely",
 "After a cancellation by the beneficiary or an executed refund, the sender's holdings equal what they were before the payment was made and no fee receiver or beneficiary keeps anything of it. The payment is gone and its funds cannot be claimed again.",
 ["histories", "schedules", "configurations"], PH, PWHY,
 [PAY], [("cancel_payment", PAY)], PSTATE, ["asset balances before and after", "payment lookup"])
prop("P06", "A dispute splits the payment exactly as ruled",
 "On resolving a dispute the favoured party receives the ruled percentage of the amount (rounded down) and the other party the rest; the losing side pays its incentive to the resolver's account and the winner gets its own back; only fees marked as charged on disputes are paid and all other fees return to who set them aside. The three parties and fee receivers together end with exactly what they started with.",
 ["histories", "inputs", "configurations"], "all rulings 0-100% for both winning roles, over several amounts, fee schedules (fees shared by one receiver, charged or not on disputes) and balances",
 "Two rulings (one for each side) with one amount and one fee schedule are tested.",
 [PAY, PTY], [("settle_payment with DisputeResult", PAY), ("get_summary", PTY)], PSTATE, ["asset balances before and after"])
prop("P07", "A requested refund happens exactly at its deadline unless stopped",
 "A refund requested at a block takes effect exactly the configured number of blocks later, not earlier, not later and only once, unless the beneficiary disputes it before the deadline or gives the money back earlier. Once disputed or given back, the scheduled refund never changes anything.",
 ["schedules", "histories"], PH + "; every block from the request to past the deadline, and blocks too full for anything scheduled (then the next that has room)",
 "One test runs a refund to its deadline undisturbed and one disputes it.",
 [PAY], [("schedule_named / cancel_named", PAY)], PSTATE, ["payment state per block", "balances per block"])
prop("P08", "A payment request moves no funds until its payer accepts it, once",
 "Requesting a payment moves and holds nothing; only the named payer can accept it, acceptance settles the full amount and fees at once, and only one acceptance ever succeeds. A payment that was not requested by its beneficiary can never be settled through acceptance.",
 ["histories"], PH, "One happy path accepts one request.",
 [PAY], [("accept_and_pay", PAY), ("request_payment", PAY)], PSTATE, ["payment state", "balances"])
prop("P09", "Fee totals separate mandatory fees from optional ones",
 "For any list of fees the total to reserve is the sum of all fees of that side, the total charged in a dispute is the sum of exactly the fees marked mandatory, and every receiver is paid the sum of its fees - also when one receiver has both mandatory and optional fees or appears several times.",
 ["inputs"], "all fee lists up to length 3 (thorough: 4) per side over two receivers, several amounts and both flags, summarised for normal and dispute settlement",
 "The tests use one fee list with one fee per receiver and side.",
 [PTY], [("Fees::summary_for / get_summary", PTY)], None, ["summary_for"])
prop("P10", "Payments do not interfere with each other",
 "Operating on one payment never changes the record, held funds or outcome of any other payment, even when they share sender, beneficiary, asset or fee receivers. A new payment never takes over the identifier of an existing one.",
 ["histories"], "two payments over shared parties with all interleavings of their operations, and identifier collisions forced at every point",
 "Every test uses a single payment and ever-increasing identifiers.",
 [PAY], [("create_payment", PAY), ("hold bookkeeping by amount", PAY)], PSTATE, ["other payment's record and backing"])
prop("P11", "Every step of a payment is announced truthfully, and nothing else",
 "Each successful operation on a payment announces exactly that step with the payment's identifier, parties, asset and amounts, and each refused operation announces nothing. A refund carried out by schedule is announced too.",
 ["histories"], PH, "Tests look at single events and never at their absence.",
 [PAY], [("calls", PAY), ("events", PAY)], PSTATE, ["events of each block"])
prop("P12", "The terms of a payment are fixed when it is made",
 "Fees and incentive are those charged to this sender and beneficiary for this asset, amount and remark at the time the payment is made. Changing the tariff later affects no payment made before, whichever way it ends.",
 ["histories", "configurations"], "all interleavings of payment operations with tariff changes, tariffs depending on each of the parties, asset, amount and remark", "Test tariffs are constant.",
 [PAY, PTY], [("create_payment", PAY), ("fee handler", PTY)], PSTATE, ["amounts settled on each party"])

# ---------------------------------------------------------------- communities
CSTATE = [("CommunityIdFor", "which origin administers which community", COM), ("Info", "community state", COM),
          ("CommunityVotes", "recorded vote per poll and membership", COM), ("CommunityVoteLocks", "what is frozen per account and poll", COM),
          ("CommunityDecisionMethod", "how a community votes", COM)]
CH = "all interleavings of registry, membership, governance and voting calls by admins of two communities, members, outsiders, community origins and root, up to the search depth"
prop("M01", "Each community has one administering origin and each origin one community",
 "At any time every existing community is administered by exactly one origin and no origin administers two communities. Creating a community under a taken id or by an origin that already administers one fails, and handing over administration replaces the old origin entirely.",
 ["histories"], CH, "Tests create single communities and hand over once.",
 [COM, COF], [("register", COF), ("set_admin_origin", COM)], CSTATE, ["storage of administering origins", "call results"])
prop("M02", "An administrator can only affect its own community",
 "A successful administrative call changes only the caller's own community: its administrator, its decision method, the memberships assigned to or released from it and the ranks within it. Origins that administer no community, root, unsigned and ordinary members can change none of these.",
 ["histories", "inputs"], CH + "; every administrative call aimed at every community and membership",
 "Tests use one community, so acting on another one cannot be observed.",
 [COM, COF, COO], [("EnsureCommunity", COO), ("per-call community checks", COM)], CSTATE, ["per-community state before and after"])
prop("M03", "A blocked or missing community cannot administer anything",
 "While a community is blocked, or before it exists, neither its administering origin nor its own origin can perform any administrative or membership call or dispatch as its account; unblocking restores the authority unchanged.",
 ["histories"], CH + " with blocking and unblocking at every point", "No test blocks a community and then tries every privileged call.",
 [COO, COF], [("EnsureCommunity state check", COO)], CSTATE, ["call results"])
prop("M04", "Memberships are neither minted, lost nor shared by (un)enrolling members",
 "Adding a member moves exactly one unassigned membership of the community to that account, or fails when none is left; removing a member releases exactly the named membership, which that account must hold, back to the community. Every membership always has exactly one holder and the total number never changes.",
 ["histories"], CH, "Tests add and remove one member at a time with matching arguments.",
 [COM], [("add_member / remove_member", COM)], CSTATE, ["membership holders"])
prop("M05", "Promotion and demotion move a rank by one and report it truthfully",
 "Promoting or demoting a membership changes exactly that membership's rank by one step (saturating at the bounds) and nothing else. The announced rank is the rank now in effect.",
 ["histories"], CH, "Tests check the rank once after a promotion and a demotion, never the announcement.",
 [COM], [("promote / demote", COM)], CSTATE, ["membership rank", "events"])
prop("M06", "A poll's tally equals the sum of the votes recorded for it",
 "After any sequence of voting, re-voting and vote removal the ayes, nays and bare ayes of an ongoing poll equal the sums over the currently recorded votes of their weights, each weight being the one in force when the vote was cast.",
 ["histories"], CH + " including rank changes, decision-method changes and re-votes between votes", "Tests cast and remove a few votes under one decision method.",
 [COF, COT], [("try_vote / try_remove_vote", COF), ("Tally::add_vote / remove_vote", COF)], CSTATE, ["poll tally", "recorded votes"])
prop("M07", "Only the holder of a membership votes, once, on its own ongoing polls",
 "A vote is recorded only if the signer holds the membership used, the poll is ongoing and belongs to the community of that membership; a second vote with the same membership replaces the first. Any other voting or vote-removal attempt fails and changes nothing.",
 ["histories", "inputs"], CH + "; every (account, membership, poll, vote) combination", "Tests try a few mismatches in fixed states.",
 [COM, COF], [("check_membership", COM), ("track and ongoing checks", COF)], CSTATE, ["recorded votes", "call results"])
prop("M08", "Funds backing a vote stay frozen exactly as long as needed",
 "For every account and currency the amount frozen for votes equals the largest amount among its votes that still require it: votes recorded on ongoing polls, and votes on finished polls not yet unlocked. Unlocking works only once the poll has finished and never frees funds another vote still needs.",
 ["histories"], CH + "; several polls and several memberships per account", "Tests lock and unlock one vote per account.",
 [COF], [("update_locks", COF), ("unlock", COM)], CSTATE, ["frozen balances", "vote locks"])
prop("M09", "A vote must match the community's decision method",
 "A vote is accepted only if its kind matches the community's decision method in force: plain votes for membership or rank decisions, native-balance votes for native decisions and votes of the community's own asset of at least the configured minimum for asset decisions. Votes backed by nothing (a zero balance) are never accepted.",
 ["inputs", "configurations"], "all decision methods x all vote kinds, assets and boundary amounts, in fresh and re-vote situations", "A few mismatching pairs are tested.",
 [COF, COM], [("vote kind match", COF), ("minimum check", COM)], CSTATE, ["call results"])
prop("M10", "Approval and support of a poll are the true ratios of its tally",
 "Approval is ayes divided by all votes and support is bare ayes divided by the largest possible support under the decision method, each rounded down to one billionth and never above one. Both are defined without overflow or panic for every possible tally.",
 ["inputs", "configurations"], "all (ayes, nays, bare ayes) triples over boundary values up to the maximum weight, for every decision method and electorate size", "Ratios are only observed indirectly with tiny tallies.",
 [COI, COT], [("VoteTally for Tally", COI), ("max_support", COT)], None, ["approval", "support"])
prop("M11", "Dispatching as a community runs the call with exactly its account",
 "A call dispatched on behalf of a community runs signed by that community's account and no other, only for an authority of that active community. If the inner call fails the whole dispatch fails and leaves no trace.",
 ["histories", "inputs"], CH + "; several inner calls that succeed or fail, also nested", "One successful inner call is tested.",
 [COM, COF], [("dispatch_as_account", COM), ("do_dispatch_as_community_account", COF)], CSTATE, ["origin seen by the inner call", "balances"])
prop("M12", "Community voices translate faithfully to and from cross-chain identities",
 "A community origin translates to the plurality body carrying the same community number and the same kind of subset, and translating such a body back yields the same community and subset; a single member counts as one member. Origins without a faithful counterpart are refused instead of being translated to something else.",
 ["inputs"], "all subset kinds and boundary parameters x boundary community ids; all plurality junctions over a sharp alphabet", "The translation is behind a feature that no existing test builds.",
 [COO], [("TryFrom<RawOrigin> for Junction", COO), ("TryFrom<Junction> for RawOrigin", COO)], None, ["conversions"])
prop("M13", "Every community has its own account, fixed by its id",
 "A community's account depends only on its id, different communities have different accounts, and acting 'as signed by the community' resolves to exactly that account and only for the community's own origin.",
 ["inputs"], "all 65536 community ids and every origin kind", "Accounts of one or two communities are compared.",
 [COF, COO], [("community_account", COF), ("AsSignedByCommunity", COO), ("AsSignedByStaticCommunity", COO)], None, ["account ids", "origin resolution"])

# ---------------------------------------------------------------- manager
prop("M14", "The membership gate admits exactly the holders of a membership",
 "An account counts as member of a community, and passes a gate reserved to its members, exactly while it holds at least one of that community's memberships, and the memberships listed for it are exactly those it holds. Community origins, root, unsigned callers and members of other communities never pass.",
 ["histories", "inputs"], CH + "; every account and origin against every community after every step", "Tests check the gate for one member and one outsider.",
 [COO, COF], [("EnsureMember", COO), ("is_member / get_memberships", COF)], CSTATE, ["gate result", "membership lists"])
prop("M15", "Every successful community call announces exactly what it changed",
 "Each successful call announces its effect exactly once, naming the community, account, membership, poll, rank or vote that was really affected; calls that fail announce nothing.",
 ["histories"], CH, "Tests look at a few announcements after single calls.",
 [COM], [("deposit_event", COM)], CSTATE, ["events"])
prop("G01", "Registering a community is complete or has no effect",
 "A successful registration leaves the community existing and active, administered by the named account, with the requested decision method, its own membership collection owned by the community account, its own governance track (the given one or the default) for its origin, and its account inducted in the collective at the lowest rank; payment is taken from whom the origin demands. If any step fails, nothing at all changes.",
 ["histories", "inputs", "fault_sequences"], "all sequences of registrations over ids, names (valid and invalid text), admins, decision methods, tracks and payers, with each sub-step failing in turn",
 "One registration is tested.",
 [MGR, COF], [("register", MGR), ("transactional dispatch", MGR)], None, ["communities, collections, tracks, collective, balances"])
prop("G02", "Creating memberships mints exactly the announced consecutive ids",
 "Creating memberships mints exactly the consecutive ids starting at the given one, all owned by the configured owner and offered at the given price, and announces exactly how many were minted. More than 1024, an unauthorised caller or an id already in use makes the whole call fail without effect.",
 ["inputs", "histories"], "all amounts and starting ids over boundary values including the end of the id space and overlaps with existing ids; all origins", "No test checks the announced amount, the end of the id space or overlaps.",
 [MGR], [("create_memberships", MGR)], None, ["membership items, owners, prices, events"])

# ---------------------------------------------------------------- kreivo
prop("K01", "Kreivo charges payment fees to everyone but communities",
 "For any payment the sender side carries one mandatory treasury fee of 1% and the beneficiary side one of 3% of the amount rounded down, each at least the asset's minimum balance, and a party that is a community account carries none. No other fee is ever charged.",
 ["inputs"], "sender and beneficiary over ordinary, community, look-alike and other derived accounts; all boundary amounts and minimum balances; all community ids at the boundaries",
 "The Kreivo runtime has no behavioural test.",
 [KR + "payments.rs"], [("KreivoFeeHandler", KR + "payments.rs")], None, ["apply_fees"])
prop("K02", "Payment ids on Kreivo identify block, extrinsic and recipient",
 "The id given to a new payment is derived from the current block, the index of the extrinsic being executed and the recipient's account, and outside of an extrinsic no id is given.",
 ["inputs"], "blocks, extrinsic indices and recipients over boundary values", "No test builds the runtime's id generator.",
 [KR + "payments.rs", PID], [("PaymentId::next", KR + "payments.rs")], None, ["PaymentId::next"])
prop("K03", "Each proxy type permits exactly its calls, and the superset order is sound",
 "Every proxy type permits precisely the calls of its documented role: an unrestricted proxy everything, a non-transfer proxy nothing from balances or assets, the specialised ones only their listed calls and the batching and multisig wrappers. Whenever one type is declared a superset of another it permits every call the other permits, except that wrappers may be exempt only where they cannot widen rights.",
 ["inputs"], "all proxy types (and pairs) x one representative of every call of every pallet in the runtime", "The filter has no test.",
 [KR + "impls.rs"], [("InstanceFilter for ProxyType", KR + "impls.rs")], None, ["filter", "is_superset"])
prop("K04", "Foreign locations map to local accounts without impersonation",
 "A location maps to a local account only if it is the relay chain, a sibling chain, a community of this chain, a relay account or a local account of the expected network, and then to that party's own account. Locations of different parties never map to the same account and a community number that does not exist on this chain maps to none.",
 ["inputs"], "all locations with 0-3 parents and up to 3 junctions over a sharp alphabet including out-of-range community numbers and foreign networks", "No test covers the conversions.",
 [KR + "xcm_config.rs", KR + "xcm_config/communities.rs"], [("LocationToAccountId", KR + "xcm_config.rs"), ("PluralityConvertsToCommunityAccountId", KR + "xcm_config/communities.rs"), ("AccountId32FromRelay", KR + "xcm_config/communities.rs")], None, ["convert_location"])
prop("K05", "Every governance origin has exactly its own well-formed track",
 "Root and each special governance origin are assigned one track of their own and no other origin is assigned any; every assigned track exists, track ids are unique and ascending, and every track's thresholds stay within their bounds and never increase over its decision period.",
 ["inputs"], "all origins of the runtime, all tracks, thresholds at every step of the decision period", "No test looks at the tracks.",
 [KR + "collective/tracks.rs"], [("TracksInfo::track_for / tracks", KR + "collective/tracks.rs")], None, ["track_for", "tracks", "thresholds"])
prop("K06", "Addresses resolve to the right account",
 "An address given as an account resolves to that account, an address given as a community number resolves to that community's account, every other form is refused, and turning an account into an address and back yields the account.",
 ["inputs"], "all address forms, all 65536 community numbers, boundary accounts", "No test resolves an address.",
 [KR + "configuration/system_support.rs"], [("CommunityLookup", KR + "configuration/system_support.rs")], None, ["lookup", "unlookup"])
prop("K07", "Assets are accepted as reserve-backed only from their own reserve",
 "An incoming asset counts as reserve-backed only when it comes from the chain that holds its reserve: a chain's native asset from that chain, Asset Hub's assets from Asset Hub, and Polkadot-consensus assets from Asset Hub. Any other combination of asset and sender is refused.",
 ["inputs"], "all pairs of asset location and origin location with 0-3 parents and up to 4 and 2 junctions over a sharp alphabet", "No test covers reserves.",
 [KR + "xcm_config.rs"], [("Reserves", KR + "xcm_config.rs")], None, ["Reserves::contains"])
prop("K08", "Only root outranks another origin when rescheduling",
 "When comparing who may cancel or reschedule a task, equal origins compare equal, root is above every other origin, and any two other different origins are incomparable; in particular nothing is above root.",
 ["inputs"], "all pairs of origins of the runtime", "No test compares origins.",
 [KR + "impls.rs"], [("EqualOrGreatestRootCmp", KR + "impls.rs")], None, ["cmp_privilege"])
prop("K09", "An authentication challenge is valid only for a recent, existing block",
 "A challenge is accepted only if it is the hash of one of the few most recent blocks before the current one that it names. Challenges for older, current or future blocks, for blocks without a known hash, or with any other content are refused.",
 ["inputs", "histories"], "all current blocks 0-12 and near the maximum, all named blocks around them, right, wrong, empty and default challenge bytes", "No test covers the challenger.",
 [KR + "configuration/system_support.rs"], [("UnincludedBlockHashChallenger", KR + "configuration/system_support.rs")], None, ["check_challenge"])
prop("K10", "Contracts may only transfer balances and only trusted parties deploy them",
 "The only call a contract can make into the runtime is a plain balance transfer. Code upload is for root only, and contracts are instantiated only by root, acting for the treasury, or by the two designated communities acting as their own accounts.",
 ["inputs"], "one representative of every call of every pallet; every origin of the runtime over boundary community ids", "No test covers the contract settings.",
 [KR + "contracts.rs", COO], [("AllowBalancesCall", KR + "contracts.rs"), ("InstantiateOrigin", KR + "contracts.rs")], None, ["CallFilter::contains", "InstantiateOrigin", "UploadOrigin"])
prop("K11", "On Kreivo a community is governed only by its admin or the community itself",
 "Administrative authority over a community is held only by its administering origin, its own origin and its own account; accounts of other pallets or ordinary accounts never hold it, nobody can create a community other than by registration, and only root or the dedicated governance origin creates memberships.",
 ["inputs", "histories"], "every origin of the runtime (including accounts derived from other pallets with the same number) x communities, existing, blocked or missing", "No test exercises the runtime's origins.",
 [KR + "communities/mod.rs", KR + "communities/governance.rs", KR + "governance/origins.rs"], [("AdminOrigin / MemberMgmtOrigin", KR + "communities/mod.rs"), ("AccountToCommunityId", KR + "communities/mod.rs")], None, ["ensure_origin for each configured origin"])
prop("K12", "Only community members open referenda on their community's track",
 "A referendum on a community's track can be submitted only by root or by a member of that community, and a community's track settings can be changed only by that community's own origin. Kreivo-wide referenda can be cancelled or killed only by the matching special origin.",
 ["inputs"], "every origin x every track x membership layouts of two communities", "No test covers the runtime's referenda origins.",
 [KR + "communities/governance.rs", KR + "collective/governance.rs"], [("EnsureCommunityMember", KR + "communities/governance.rs"), ("EnsureOriginToTrack", KR + "communities/governance.rs")], None, ["SubmitOrigin", "UpdateOrigin", "CancelOrigin", "KillOrigin"])
prop("K13", "Only communities speak for themselves in outgoing cross-chain messages",
 "Only a community's origin or a community's own account can send cross-chain messages, and the message carries that community's identity and no other. Ordinary accounts and accounts derived from other pallets cannot send; signed accounts execute only as themselves.",
 ["inputs"], "every origin of the runtime including look-alike derived accounts, over boundary community ids", "No test covers the conversions.",
 [KR + "xcm_config.rs", KR + "xcm_config/communities.rs"], [("CanSendXcmMessages", KR + "xcm_config.rs"), ("SignedByCommunityToPlurality", KR + "xcm_config/communities.rs")], None, ["SendXcmOrigin", "ExecuteXcmOrigin"])
prop("K14", "Transaction fees grow with weight and never vanish",
 "The fee for a weight is never less than the fee for a smaller weight in either dimension, is decided by the scarcer resource, is zero only for weights too small to cost one unit, and charges the documented price for the base extrinsic and for proof size.",
 ["inputs"], "all pairs of boundary and power-of-two weights in both dimensions", "No test computes a fee.",
 [KR + "constants.rs"], [("WeightToFee", KR + "constants.rs")], None, ["weight_to_fee"])

prop("K15", "Only messages from trusted or paying parties are executed",
 "An incoming cross-chain message is executed only if its weight is already paid for, if it first brings assets and then buys enough execution with them, or if it declares to be unpaid, sufficiently limited, and really comes from the relay chain or its executive body. Anything else is refused before its first effect.",
 ["inputs", "programs"], "all messages up to 5 instructions over 17 kinds from every origin of a sharp alphabet", "No test sends a message.",
 [KR + "xcm_config.rs"], [("Barrier", KR + "xcm_config.rs")], None, ["Barrier::should_execute"])
prop("K16", "A cross-chain message never acts with more than its sender's rights",
 "A message acts as the account that belongs to its sender's location, as the relay chain, sibling chain or local account it natively is, or as its bare location, and never as root or as any other party. No location may pass as another, and accounts can neither execute messages nor teleport assets by signing.",
 ["inputs"], "all locations with 0-3 parents and up to 3 junctions over a sharp alphabet x all kinds of origin", "No test converts an origin.",
 [KR + "xcm_config.rs", KR + "xcm_config/communities.rs"], [("XcmOriginToTransactDispatchOrigin", KR + "xcm_config.rs")], None, ["OriginConverter::convert_origin", "Aliasers, IsTeleporter, filters"])
prop("K17", "Every administrative gate of the chain opens only for its authority",
 "Forced changes to assets, memberships, treasury, message queues, scheduler, preimages and the collective are open only to root, collators are also managed by the relay chain's defence body, and creating assets, spending from the treasury and adding members to the collective directly is open to nobody. Payments are sent by signed accounts and by communities as their own account, received by signed accounts, and their disputes are resolved by root alone.",
 ["inputs"], "every origin of the runtime, including derived and look-alike accounts and foreign locations, against every gate", "No test exercises the runtime's origins.",
 [KR + "lib.rs", KR + "configuration/monetary_stuff.rs", KR + "communities/memberships.rs", KR + "collective/mod.rs"], [("ForceOrigin, CreateOrigin, PromoteOrigin and the like", KR + "lib.rs")], None, ["ensure_origin for each configured origin"])
prop("K18", "Payments on Kreivo move exactly the agreed amounts",
 "On the running chain a released or accepted payment costs the sender the amount plus 1%, brings the beneficiary the amount less 3% and the treasury both, communities pay neither; 10% of the amount and the fee are held from the sender meanwhile and come back. A refund asked for is carried out by itself 14400 blocks later unless disputed, a cancelled or refunded payment leaves everybody as before. Disputes are decided by root alone, who splits the amount as decided and takes the 10% from the loser, whatever else the parties own.",
 ["histories", "inputs"], "all pairs of ordinary and community parties, assets of five minimum balances, hundreds of amounts, every way a payment can end, and parties with plenty, with just what it takes and with everything else spent", "The runtime has no behavioural test.",
 [KR + "payments.rs", PAY], [("pallet_payments::Config for Runtime", KR + "payments.rs")], None, ["balances and held funds of all parties"])
prop("K19", "Assets from elsewhere live in exactly the ledger of their kind",
 "The relay chain's token is kept in the native ledger and every other asset that can be located in the asset ledger under its own identity, only if it is registered; depositing adds and withdrawing takes exactly the amount for exactly the named party, and anything else is refused without a trace. Execution is bought only with the relay token or registered assets of the asset hub or of the Polkadot consensus, and what is paid reaches the treasury.",
 ["inputs"], "all asset locations with 0-3 parents and up to 4 junctions over a sharp alphabet x parties inside and outside of the chain", "No test covers asset transactors.",
 [KR + "xcm_config.rs", "common/src/multilocation_asset_id.rs"], [("AssetTransactors, Traders", KR + "xcm_config.rs")], None, ["AssetTransactor", "Trader"])
prop("K20", "Transaction fees reach the treasury or the block's author and nobody else",
 "Fees in the native token go to the treasury in full. Fees in another asset go to the author of the block in full, and where there is no author, or it could not hold so little, they are destroyed and no balance changes.",
 ["inputs"], "every kind of account as author or none, assets of five minimum balances, boundary fees", "No test charges a fee.",
 [KR + "configuration/monetary_stuff.rs", "runtime/common/src/impls.rs"], [("ToAuthor / AssetsToBlockAuthor", "runtime/common/src/impls.rs"), ("OnChargeTransaction", KR + "configuration/monetary_stuff.rs")], None, ["all balances and issuance"])
prop("K21", "A community's decision takes effect exactly when its members took it",
 "Only members (or root) put a proposal to a community's vote, only that community's members vote, once per membership, and it is carried out once exactly if ayes are at least as many as nays before the period ends. It then acts for that community alone: it spends the community's money and changes its settings, but not another community's nor the chain's.",
 ["histories", "inputs"], "all votes of five members of two communities on all combinations of submitter, claimed origin, proposal, timing, missing deposit and attempts to stop it", "No test takes a proposal from submission to its effect on the runtime.",
 [KR + "communities/governance.rs", KR + "communities/mod.rs", MGR, COM, COF, COI], [("default track", MGR), ("EnsureCommunityMember", KR + "communities/governance.rs"), ("vote", COM)], None, ["balances, settings, state of the proposal"])
prop("K22", "Chain-wide decisions are taken by ranked communities and act only in their field",
 "Only communities of rank one or more vote on the chain's proposals, each with its rank as weight; proposals of root, cancelling and killing pass with nine tenths, those on memberships with half of the votes and half of the seats. Once passed a proposal acts with exactly the authority it was decided for.",
 ["histories", "inputs"], "all ranks 0-3 and all votes of three communities on every track and kind of proposal", "No test takes a proposal from submission to its effect on the runtime.",
 [KR + "collective/mod.rs", KR + "collective/governance.rs", KR + "collective/tracks.rs", KR + "governance/origins.rs"], [("MinRankOfClass, VoteWeight", KR + "collective/mod.rs"), ("TracksInfo", KR + "collective/tracks.rs")], None, ["ranks, memberships, state of other proposals"])
prop("K23", "A community's proposal ends exactly when its votes satisfy the curves",
 "Under the rules a community starts with, approval must reach a share falling from all to half of the votes cast, and turnout a share falling from half to none of the members, over 255 blocks. A proposal confirmed for one block is carried out in the next, one that never satisfies both is rejected at the end, and proposals of one community are decided one at a time.",
 ["histories", "inputs"], "all counts of ayes, nays and silent members of communities up to the bound, close calls in large ones, votes cast at boundary times, and three proposals competing for one decision", "Tests vote once with everybody in favour and never compute when a proposal must end.",
 [KR + "communities/governance.rs", MGR, COM, COI], [("default track", MGR), ("approval, support", COI)], None, ["outcome and block of the end of the proposal"])
prop("K24", "Chain-wide proposals run by their deposits, periods and curves",
 "A chain-wide proposal costs one unit to submit and its track's deposit to be decided, is dropped after two days without it, and all deposits of an ended proposal can be taken back. After fifteen minutes of preparation it is decided within four days, by approval falling to nine tenths (half for memberships) and turnout falling to none (half), once it stood confirmed for fifteen minutes.",
 ["histories", "inputs"], "all ranks 0-3 of three communities and all their votes at boundary times, on every track, with and without deposit", "No test runs a chain-wide proposal through its periods.",
 [KR + "collective/mod.rs", KR + "collective/tracks.rs", KR + "collective/governance.rs", KR + "governance/mod.rs"], [("TracksInfo", KR + "collective/tracks.rs")], None, ["outcome, block of the end, deposits"])
prop("K25", "Anybody may found a community for the price, and gets exactly that community",
 "Root registers communities for free and any signed account for exactly half a unit paid into the treasury while keeping an alive account; everybody else is refused. A registered community comes with a collection owned by its account, its own decision track and rank zero, no members, and the named account as only administrator, and a failed attempt leaves no trace.",
 ["inputs", "histories"], "all combinations of caller, wealth, name length, administrator address kind, decision method and community id, fresh and taken", "Manager tests use a mock without price or collections.",
 [MGR, KR + "communities/mod.rs", KR + "communities/governance.rs"], [("register", MGR), ("CreateOrigin", KR + "communities/mod.rs")], None, ["balances, collection, track, rank, administrator"])
prop("K26", "Money is denominated as on the relay chain and storage costs a hundredth",
 "A unit is 10^12 of the smallest amount and a cent its three-thousandth (on Paseo 10^10 and a hundredth), and the smallest account a tenth of a cent. Storing costs a hundredth of the relay chain's price per item and byte wherever something is stored, never overflows, and the relay chain's weight costs a tenth of a cent for a base extrinsic, in proportion.",
 ["inputs", "configurations"], "all small and all boundary numbers of items and bytes, every configured deposit, preimages of all small and boundary sizes, weights up to two hundred times the base", "No test reads the configured prices.",
 [KR + "constants.rs", "runtime/runtime-constants/src/lib.rs", KR + "configuration/mod.rs", KR + "configuration/monetary_stuff.rs"], [("deposit", KR + "constants.rs"), ("WeightToFee", "runtime/runtime-constants/src/lib.rs")], None, ["deposits"])
prop("K27", "Calls and origins keep the numbers and layouts they are published under",
 "Every call about payments, communities and memberships is read from exactly the bytes wallets and other chains have always written for it, with the same meaning, and is written back to the same bytes; a part of a call is none. The same holds for the origins proposals and administrators are recorded as, the reasons for holds and freezes, and the numbers and names of all parts of the chain.",
 ["inputs", "configurations"], "all calls of the three pallets over boundary values of every argument, all prefixes of their bytes, all origins including every community id, every part of the chain", "No test encodes a call.",
 [KR + "lib.rs", PAY, COM, COO, MGR, "pallets/communities/src/types.rs", "pallets/payments/src/types.rs", "common/src/payment_id.rs", "common/src/multilocation_asset_id.rs", KR + "governance/origins.rs"], [("pallet_index", KR + "lib.rs"), ("call_index", PAY), ("Vote, DecisionMethod", "pallets/communities/src/types.rs")], None, ["encoded calls and origins"])
prop("K28", "What is stored already keeps its meaning",
 "Payments, who takes part in them, communities, their administrators, how they decide, votes, and what is locked for votes are kept under exactly the keys and in exactly the layout that the chain already holds. No step of a payment or vote leaves a record the previous version would read otherwise.",
 ["histories", "inputs"], "all steps of payments between all kinds of parties over all kinds of assets, boundary amounts, blocks and positions; all decision methods, administrators and kinds of votes", "No test looks at what is stored.",
 [PAY, COM, "pallets/communities/src/types.rs", "pallets/payments/src/types.rs", "common/src/payment_id.rs", "common/src/multilocation_asset_id.rs", KR + "payments.rs"], [("Payment, PaymentParties", PAY), ("PaymentDetail, PaymentState", "pallets/payments/src/types.rs"), ("CommunityVotes", COM)], None, ["storage"])
prop("K29", "The chain tells the truth about what an account owns",
 "Asked for an account's balances the chain names every asset the account owns under that asset's location, the native token under the relay chain's, each with exactly what is not held, and nothing else; asking changes nothing. An account's next transaction number is the count of its transactions, and the time between blocks that nodes are told is the one the chain works with.",
 ["inputs"], "all combinations of nothing, little, much and partly held of seven kinds of assets and the native token, for ordinary accounts, communities and the treasury", "No test asks the runtime anything.",
 [KR + "apis.rs", KR + "xcm_config.rs", "common/src/multilocation_asset_id.rs"], [("query_account_balances", KR + "apis.rs"), ("LocationConvertedConcreteId", KR + "xcm_config.rs")], None, ["answers of the runtime's interfaces"])
prop("K30", "Deciding by an asset makes at most that asset and alters none",
 "When a community decides to vote with an asset that does not exist, exactly that asset comes into being: without supply, with the smallest vote as its smallest balance, in the keeping of the communities' common account and unable to keep accounts alive by itself. Assets that exist stay exactly as they are whatever is asked for, and refused callers change nothing.",
 ["histories"], "all sequences of up to two attempts by every kind of caller, and of three by the communities themselves, over existing, missing, foreign and local assets and smallest votes from nothing to the largest number", "No test looks at the assets after a decision method was set.",
 [COM, KR + "communities/mod.rs"], [("set_decision_method", COM)], None, ["asset ledger"])
prop("K31", "A generated chain description is one the chain can start from",
 "The description generated for a local network names parachain 2281 on the local network of the chosen relay chain and that chain's currency, endows each of the twelve development accounts once and equally, gives each initial collator exactly one session key, its own, asks candidates for sixteen times the smallest balance and uses the latest message format. The name of the live chain gives what is shipped for it, and a description file comes back as it is, in raw form exactly when asked for. Anything else is refused without printing a description.",
 ["inputs", "configurations"], "all command lines of up to three words over known names, near misses, switches and good and bad description files, for both relay chains", "The generator has no tests.",
 ["chain-spec-generator/src/main.rs", "chain-spec-generator/src/common.rs", "chain-spec-generator/src/spec/mod.rs", "chain-spec-generator/src/spec/local.rs", "chain-spec-generator/src/spec/live/mod.rs"],
 [("local_genesis", "chain-spec-generator/src/spec/local.rs"), ("supported_chains", "chain-spec-generator/src/main.rs"), ("Extensions", "chain-spec-generator/src/common.rs")], None, ["what the generator prints and its exit status"])
prop("K32", "A community's account is alive from its founding, whatever it owns",
 "From its founding on, whoever founded it and whether or not it owns anything, a community can be given any asset, also one that only living accounts may keep. It can spend what it was given down to nothing, in any order, and neither its account nor what else it owns is lost thereby.",
 ["histories"], "all sequences of five gifts and expenses of one or two portions of the native currency, an asset that keeps accounts alive and one that does not, for communities founded by root and by paying accounts, with and without funds beforehand", "No test gives a community without funds anything.",
 ["pallets/communities/src/functions.rs", KR + "communities/mod.rs"], [("register", "pallets/communities/src/functions.rs")], None, ["balances and existence of the community's account"])

prop("K33", "Work is paid for in full and leaves room for the upkeep of the chain",
 "Every call of the chain's own modules is charged, and occupies a block with, at least what was measured for it with its arguments, and one that carries another call is charged for both, also after the fact, and keeps that call's class. Whatever may be asked for at once fits into a block. However busy a block is with ordinary calls, a quarter of it stays for operational ones, which find room there.",
 ["inputs", "configurations"], "every call of the runtime, by itself and carried by up to six others; all remark lengths; all numbers of memberships; all pairs of (used, asked for) 256ths of a block with every operational share up to a quarter; all sequences of three successful own calls and all acts of a community, by what they report afterwards", "No test looks at the weight of a call or at the limits of a block.",
 ["pallets/payments/src/lib.rs", "pallets/communities/src/lib.rs", "pallets/communities-manager/src/lib.rs", KR + "configuration/system_support.rs"], [("weights of calls", "pallets/communities/src/lib.rs"), ("block limits", KR + "configuration/system_support.rs")], None, ["declared weight and class of calls", "block limits of the runtime"])
prop("K34", "A signed transaction takes effect once, for its signer, in its time, and is paid",
 "A transaction is accepted only if it was signed by the account it acts for, for this chain, this version of it and a period that is not over, with that account's next number, and if there is room in the block and somebody can pay; the null account cannot send any. It is then counted and charged exactly its price, from the member's gas tank, the chosen asset or the native currency, for a session from the account behind it, and only a call declared free, such as a valid authentication, costs nothing. No transaction takes effect twice or out of turn, and a refused one changes nothing.",
 ["inputs", "histories"], "all combinations of nine senders, signers, all subsets of wrong beliefs about the chain, lifetimes and signing times, numbers, tips, busy blocks, means of payment and six kinds of calls; every call of the runtime at three lengths; all sequences of six over six prepared transactions and a new block", "No test signs or applies a transaction.",
 [KR + "lib.rs", KR + "configuration/monetary_stuff.rs", KR + "communities/memberships.rs", "pallets/communities/src/lib.rs", "pallets/payments/src/lib.rs"], [("SignedExtra", KR + "lib.rs"), ("ChargeTransaction", KR + "lib.rs"), ("fee configuration", KR + "configuration/monetary_stuff.rs")], None, ["acceptance of transactions", "account numbers, balances and gas tank after them"])
prop("K35", "Producers of blocks take turns, change by session and stay while they work",
 "Sessions are equally long, some hours each. In a session the blocks belong in turn to those chosen two session ends ago, the invulnerable ones and the bonded candidates with a key, and are sealed with their own keys; a candidate who produced a block within the length of a session stays, one idle for a whole session is dropped and gets the bond back, but never the last producer. The author of a block, and nobody else, gets half of what the reward pot holds beyond the smallest balance.",
 ["histories", "configurations"], "every block of a year for the ends of sessions; every block of three sessions for turns and rewards with seven contents of the pot; all histories of three sessions in which two candidates join, leave, idle and work at different times, with none, one and two invulnerable producers", "No test runs a session.",
 [KR + "lib.rs"], [("pallet_collator_selection::Config", KR + "lib.rs"), ("pallet_session::Config", KR + "lib.rs"), ("pallet_authorship::Config", KR + "lib.rs")], None, ["authors of blocks", "candidates and their bonds", "balance of the pot"])
prop("K36", "Messages of other chains are carried out as theirs, in order, within a share",
 "Every message of the relay chain or a sibling chain that is handed in is carried out exactly once, as a message of the chain that sent it, and messages of one chain in the order they were sent. While messages of siblings are suspended none of them is carried out, and none is lost; the relay chain's go on. Together they take at most their share of a block, between a tenth and a half of it, and while something may be carried out something is.",
 ["histories", "schedules", "configurations"], "every sibling with a 16-bit number and three larger ones, suspended or not; all histories of six (thorough seven) steps out of eight: light and heavy messages of the relay chain and two siblings, suspending, resuming and a block", "No test hands in a message.",
 [KR + "lib.rs", KR + "configuration/system_support.rs"], [("pallet_message_queue::Config", KR + "lib.rs"), ("cumulus_pallet_parachain_system::Config", KR + "configuration/system_support.rs"), ("cumulus_pallet_xcmp_queue::Config", KR + "lib.rs")], None, ["messages carried out and the place they are carried out as", "weight used in a block"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
