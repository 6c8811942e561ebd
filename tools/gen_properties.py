#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line). Kept so the list can be edited in one readable place."""
import json, os
P = []
PAY = "pallets/payments/src/lib.rs"; PTY = "pallets/payments/src/types.rs"
COM = "pallets/communities/src/lib.rs"; CFN = "pallets/communities/src/functions.rs"
CIM = "pallets/communities/src/impls.rs"; CTY = "pallets/communities/src/types.rs"; COR = "pallets/communities/src/origin.rs"
MGR = "pallets/communities-manager/src/lib.rs"
PID = "common/src/payment_id.rs"; LOC = "common/src/multilocation_asset_id.rs"
K = "runtime/kreivo/src/"

def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOBUILD = "The pallet tests do not even build here without FRAME, and upstream they only run "
STP = [("Payment", "escrow record per sender and payment id", PAY), ("PaymentParties", "sender and beneficiary of an id", PAY)]

p("C01", "Payments never create or destroy assets",
  "Whatever payment operations users perform, and whether each succeeds or fails, the total of free and escrowed units of every asset over all accounts stays the same. An operation that reports an error leaves every balance and every payment exactly as it was.",
  ["histories", "inputs", "configurations"], "all sequences of payment calls by any accounts, all amounts, fee tables, minimum balances and block advances",
  NOBUILD + "a handful of scripted single-payment stories and compare a few balances; conservation is a statement about every interleaving.",
  [PAY, PTY], [("settle_payment / cancel_payment / reserve_payment_amount", PAY), ("try_transfer_fees", PAY)], STP, ["free and held balances of every account before and after each dispatched call"])
p("C02", "Escrow is always exactly backed by the open payments",
  "At any moment the units an account has locked by payments equal exactly what its open payments require: the payer's fees plus incentive, the payee's full amount, and the payee's incentive while disputed. Once a payment is settled, refunded or cancelled nothing of it stays locked, and funds locked for one payment are never consumed by another.",
  ["histories", "inputs", "configurations"], "all histories with several concurrent payments sharing parties and assets, all fee tables",
  NOBUILD + "one payment at a time, so a lock leaking from one payment into another is never visible.",
  [PAY, PTY], [("hold / release amounts", PAY), ("Fees::get_summary totals", PTY)], STP, ["held balance per account compared with the sum over stored payments"])
p("C03", "A payment follows its life cycle and pays out at most once",
  "A payment only ever moves along: requested to finished; created to finished, refund-requested or removed; refund-requested to disputed or removed; disputed to finished. A finished payment never changes again and money leaves a payment at most once. An operation the current stage does not allow is refused, and one it does allow (by the right party, with the funds available) succeeds.",
  ["histories"], "all orders of all eight operations on the same and on different payments, repeated and out of order",
  NOBUILD + "the documented order of calls, plus a few single wrong calls.",
  [PAY, PTY], [("state checks in each dispatchable", PAY), ("create_payment in-process check", PAY)], STP, ["stored stage of each payment after each call"])
p("C04", "Only the entitled party can act on a payment",
  "Only the payer can release, ask a refund of, or accept a payment; only its payee can cancel it or dispute the refund; only the dispute resolver can settle a dispute. Anybody else's attempt fails and changes nothing, whoever they are party to elsewhere.",
  ["histories", "inputs"], "every caller (payer, payee, resolver, fee account, stranger, party of another payment) trying every operation in every stage",
  NOBUILD + "two or three refused calls; the caller x operation x stage matrix is not enumerated.",
  [PAY], [("SenderOrigin / BeneficiaryOrigin / DisputeResolver checks", PAY), ("party comparison against stored parties", PAY)], STP)
p("C05", "Release and accept pay everybody exactly their share",
  "When a payment is released, or a payment request accepted, the payee receives the amount minus the payee's fees, the payer pays the amount plus the payer's fees, every fee account receives exactly the sum of its fees, and the incentive goes back to the payer. No other account's balance changes.",
  ["inputs", "configurations", "histories"], "all amounts, fee tables (fixed or proportional, optional or mandatory, repeated accounts, zero fees), parties that are also fee accounts",
  NOBUILD + "one amount with one fee table in which no account appears twice with different flags.",
  [PAY, PTY], [("settle_payment", PAY), ("accept_and_pay", PAY), ("Fees::get_summary", PTY)], STP)
p("C06", "Cancelling or refunding makes the payer whole",
  "When the payee cancels a payment, or an undisputed refund completes, the payer gets back everything that was taken when paying, no fee account earns anything, the payee's own funds are untouched, and the payment is forgotten. The payer and payee then hold exactly what they would hold had the payment never been made.",
  ["histories", "inputs", "configurations"], "all fee tables and amounts, with other payments of the same parties open at the same time",
  NOBUILD + "a cancel of a lone payment with one fee table.",
  [PAY], [("cancel_payment", PAY)], STP)
p("C07", "Refund requests mature exactly when the objection window ends",
  "After the payer asks for a refund, the payee can object during the whole configured window and not after it; if there is no objection the refund happens by itself in the very block the window closes, without any further call. An objection in time stops the automatic refund for good.",
  ["histories", "schedules"], "every block offset between request, objection, manual cancel and the deadline, with several refunds pending at once",
  NOBUILD + "one objection and one expiry at fixed offsets; the boundary blocks and several pending refunds are not covered.",
  [PAY], [("request_refund deadline and named schedule", PAY), ("dispute_refund deadline check and cancel_named", PAY)], STP)
p("C08", "Dispute resolution splits the amount as ruled; the loser pays the judge",
  "A ruling gives the awarded percentage of the amount, rounded down, to the side it favours and the rest to the other side. The losing side's incentive goes to the resolver and the winning side's incentive is returned; only fees marked as due in disputes are charged and optional ones are given back.",
  ["inputs", "configurations", "histories"], "all percentages 0..100, both outcomes, all amounts and fee tables including an account with both optional and mandatory fees",
  NOBUILD + "two percentages with one fee table in which no account has both kinds of fee.",
  [PAY, PTY], [("settle_payment dispute branch", PAY), ("Fees::get_summary dispute totals", PTY)], STP)
p("C09", "A payment id always names one payment between the same two parties",
  "At every moment an id that names a stored payment names exactly one, and the parties recorded for the id are that payment's payer and payee. Creating a payment never replaces or hijacks a live payment of anyone else, even when the same id is generated again; the creation is refused instead.",
  ["histories", "inputs"], "all creation histories including repeated id generation (several creations in one extrinsic) with equal or different payers and payees",
  NOBUILD + "ids that never collide.",
  [PAY], [("create_payment", PAY), ("PaymentParties maintenance in cancel", PAY)], STP)
p("C10", "Payment events report exactly what happened",
  "Each successful payment operation announces exactly one payment event of its own kind carrying the right payment id (and the asset, amount, remark or expiry it concerns), and a failed one announces none. A record kept by an observer from events alone therefore always agrees with the stored payments.",
  ["histories", "inputs"], "all call histories, with automatic refunds included",
  NOBUILD + "the last event of a few calls.",
  [PAY], [("deposit_event calls", PAY)])
p("C11", "Payment ids convert between forms without loss",
  "A payment id converts to its number, its eight bytes and its on-chain encoding and back without loss, all of them being the same eight bytes in the same order. An id made from block, extrinsic and extra bytes reports that same block and extrinsic (modulo 65536) and takes its first two bytes from the extra bytes.",
  ["inputs"], "all 2^64 ids, all (block, extrinsic, extra) triples",
  "The two existing tests convert one value each; a slip in one byte lane or at a boundary is invisible to them.",
  [PID], [("From conversions, AsRef, Encode/Decode", PID)])
p("C12", "Payment id text form round-trips and hostile text is handled safely",
  "Every payment id prints as its base58 text, plainly or with a separator after the fifth character, and both parse back to the same id. Parsing text that is not an id yields an error, never a crash, for whatever text a user supplies.",
  ["inputs"], "all 2^64 ids (including those with leading zero bytes) and all strings",
  "The existing tests print two ids and parse one; leading zero bytes, maximal lengths, separators in odd places and foreign characters are never tried.",
  [PID], [("Display", PID), ("FromStr", PID)])
p("C13", "Local asset ids and cross-chain locations correspond one to one",
  "Every local asset id has exactly one cross-chain location which converts back to the same id, and a location that is accepted converts back to that same location. Locations that do not denote a supported asset are refused; no location supplied by another chain can crash the conversion.",
  ["inputs"], "all asset ids and all locations, including oversized parachain ids, general indices, unknown networks and malformed junction lists",
  "No test covers this conversion at all.",
  [LOC], [("AsFungibleAssetLocation convert / convert_back", LOC), ("NetworkId conversions", LOC)])
p("C14", "Community registry: one community per admin, one admin per community",
  "A community is registered at most once, is reachable from exactly its current admin (besides the community itself), and an admin origin belongs to at most one community. Changing the admin hands control over completely: the old admin loses it, the new one has it, and nobody else's community is affected.",
  ["histories", "inputs"], "all sequences of registrations and admin changes over several communities and origins",
  NOBUILD + "one registration and one admin change.",
  [CFN, COM], [("register / do_register_admin", CFN), ("set_admin_origin", COM)],
  [("Info", "community state", COM), ("CommunityIdFor", "admin origin to community", COM)])
p("C15", "A community can only be administered by its own admin",
  "Adding, removing, ranking members, choosing the decision method, and changing the admin affect only the community whose admin made the call. An admin of one community, a member, a stranger or a blocked community's origin can change nothing of another community.",
  ["histories", "inputs"], "every caller x every administrative call x every target community, in every reachable state",
  NOBUILD + "one bad-origin attempt per call.",
  [COM, COR, CFN], [("AdminOrigin / MemberMgmtOrigin checks", COM), ("EnsureCommunity", COR)])
p("C16", "Memberships are issued, held and withdrawn one at a time",
  "Adding a member gives that account exactly one of the community's unassigned memberships and fails if none is left; removing takes back exactly the named membership from the account that holds it. No membership is ever held twice, lost or duplicated, and membership queries agree with what was issued.",
  ["histories", "inputs"], "all add/remove histories over several communities, accounts and memberships, including repeated and mismatched ones",
  NOBUILD + "a single add and remove.",
  [COM, CIM, CFN], [("add_member", COM), ("remove_member", COM), ("Inspect impls", CIM)])
p("C17", "Ranks change by exactly one step and are reported correctly",
  "Promoting or demoting a membership changes that membership's rank by exactly one within its bounds and nobody else's; the reported rank is the rank the membership now has. Communities' total rank always equals the sum of their members' ranks.",
  ["histories", "inputs"], "all promote/demote sequences, including at rank 0 and at the maximum rank",
  NOBUILD + "one promotion and one demotion without checking the announced rank.",
  [COM, CIM], [("promote / demote", COM), ("ranked membership impls", CIM)])
p("C18", "A poll's tally is the sum of the votes currently cast",
  "At every moment the ayes and nays of an ongoing community poll equal the summed weight of the votes currently recorded on it; re-voting replaces and removing withdraws exactly the previous weight. Every vote counts by the community's decision method: membership, rank, native tokens or community asset units.",
  ["histories", "inputs", "configurations"], "all vote / re-vote / remove histories over all decision methods, several voters, memberships and polls, including large amounts",
  NOBUILD + "scripted referenda with few voters, each voting once.",
  [CFN, CTY, COM], [("do_vote / do_remove_vote", CFN), ("Tally add_vote / remove_vote", CTY), ("VoteWeight conversion", CTY)],
  [("CommunityVotes", "votes per poll and membership", COM)])
p("C19", "Only members vote, on their own community's polls, in the right way",
  "A vote is accepted only from an account holding the given membership of the community that the poll belongs to, only while the poll is ongoing, only with a vote of the kind that community decides by, and only of non-zero weight. A membership has at most one vote per poll, whoever cast it.",
  ["histories", "inputs"], "all voters x memberships x polls x vote kinds in all poll stages",
  NOBUILD + "one refusal of each sort.",
  [CFN, COM], [("vote checks", CFN), ("check_membership", CFN), ("method/vote compatibility", CFN)])
p("C20", "Funds backing a vote stay frozen until the vote is withdrawn or the poll ends",
  "While an account's token vote is recorded on an ongoing poll at least that many of its units are frozen; after removal, or after the poll ended and it unlocked, the freeze for that poll is gone while freezes for its other polls remain. Unlocking is refused while the poll is ongoing.",
  ["histories", "inputs"], "all vote / remove / finish / unlock histories with several polls, assets and memberships",
  NOBUILD + "one voter with up to two polls.",
  [CFN, COM], [("update_locks / freeze extension", CFN), ("unlock", COM)],
  [("CommunityVoteLocks", "locks per account and poll", COM)])
p("C21", "Approval and support are the true proportions",
  "Approval is the weight of ayes over all votes cast and support is the ayes, not multiplied by rank, over the whole electorate; both are rounded down to billionths, to within three billionths beyond a total of a billion, and never above 100%. Up to that precision neither decreases when an aye is added nor approval increases when a nay is added, and neither ever crashes, however large the tally.",
  ["inputs", "configurations"], "all tallies up to the largest representable counts and all electorate sizes including zero, for every decision method",
  "Only tiny tallies are used in the tests; overflow and empty electorates are not.",
  [CTY, CIM], [("Tally approval / support", CTY), ("max_support", CTY)])
p("C22", "Acting as a community account is limited to that community's admin",
  "Only the admin of a registered community can dispatch a call as the community's account, and the call then runs with that community's account as the signer and no other authority. The outcome of the inner call is the outcome reported.",
  ["histories", "inputs"], "all callers x communities x inner calls (succeeding, failing, privileged)",
  NOBUILD + "one successful transfer.",
  [COM, CFN, COR], [("dispatch_as_account", COM), ("community_account", CFN)])
p("C23", "Registering a community sets up everything or nothing",
  "A successful registration yields an active community with the requested admin and decision method, its membership collection and its governance track, and the caller has paid exactly the registration price. If any part fails nothing is left behind and nothing is charged.",
  ["histories", "inputs", "fault_sequences"], "all registration histories with fresh and clashing ids, admins, names, payers with too little money, and a failure injected at every sub-step",
  NOBUILD + "one successful registration.",
  [MGR, CFN, COR], [("register", MGR), ("register", CFN), ("EnsureSignedPays", COR)])
p("C24", "Creating memberships mints exactly what was asked",
  "Creating memberships mints exactly the requested number of new memberships, up to the per-call limit and as far as there are ids, each offered at the given price and owned by the memberships manager, and never touches an existing one. The announced number is the number created.",
  ["inputs", "histories"], "all amounts around 0, 1, the limit and beyond; all previous mint histories and starting ids, including ids already taken and the end of the id range",
  NOBUILD + "one small batch.",
  [MGR], [("create_memberships", MGR)])
p("C25", "Kreivo's fee policy is applied to every payment",
  "On every payment the payer is charged 1% and the payee 3% of the amount, rounded down but at least the asset's minimum balance, to the treasury and also in disputes, except that accounts belonging to communities pay no fee. No other account is treated as a community account.",
  ["inputs", "configurations"], "all amounts, minimum balances, and kinds of payer and payee account (user, community account, account of another pallet, look-alike accounts)",
  "There is no test of the runtime's fee handler.",
  [K + "payments.rs"], [("KreivoFeeHandler", K + "payments.rs")])
p("C26", "Payments made at different places get different ids",
  "The id given to a payment encodes the block and extrinsic it was made in and two bytes of its payee, so two payments made in different extrinsics (up to 65536 per block) never share an id. Outside of an extrinsic no id is issued.",
  ["inputs", "histories"], "all blocks, extrinsic indices and payees",
  "There is no test of the runtime's id generator.",
  [K + "payments.rs", PID], [("PaymentId::next", K + "payments.rs"), ("From<(u32, u32, &[u8])>", PID)])
p("C27", "A restricted proxy cannot do more than its type says",
  "Each proxy type permits exactly the calls its description names: asset proxies only asset calls (owners and managers disjoint parts of them), collator proxies only collator calls, cancel proxies only rejections, non-transfer proxies nothing that hands over funds or assets, full proxies everything. A proxy type ranked above another permits everything the other permits, and the ranking is a partial order.",
  ["inputs", "configurations"], "all pairs of proxy types and all calls of all pallets of the runtime",
  "There is no test of the proxy filter.",
  [K + "impls.rs"], [("InstanceFilter::filter / is_superset", K + "impls.rs")])
p("C28", "Only a community's own account speaks for that community",
  "Signing as a community account grants that community's authority, and apart from an origin chosen as the community's administrator no other origin grants any: in particular accounts derived for other pallets and ordinary keys are never taken for a community. The mapping from community to account is one to one.",
  ["inputs"], "all community ids and all accounts, including other pallets' sub-accounts and malformed look-alikes",
  "There is no test of these origin converters.",
  [K + "communities/mod.rs", COR, CFN], [("AccountToCommunityId", K + "communities/mod.rs"), ("AsSignedByCommunity / EnsureSignedByCommunity", COR), ("community_account", CFN)])
p("C29", "Login challenges are only valid for recent blocks",
  "A device challenge is accepted exactly if it is the hash of the block it names and that block is one of the three most recent finished ones; challenges for older blocks, for blocks that do not exist yet, or any guessable constant are refused.",
  ["inputs", "histories"], "all current heights, all claimed heights and challenge values",
  "There is no test of the challenger.",
  [K + "configuration/system_support.rs"], [("UnincludedBlockHashChallenger", K + "configuration/system_support.rs")])
p("C30", "Governance tracks and origins correspond one to one",
  "Every collective governance origin maps to exactly one existing track, distinct origins to distinct tracks, tracks are listed in order without duplicates, and no other origin has a track. The thresholds of a track never rise while a decision period runs and stay between 0 and 100%.",
  ["inputs", "configurations"], "all origins of the runtime, all tracks, all points of the decision period",
  "There is no test of the track table.",
  [K + "collective/tracks.rs", K + "governance/origins.rs"], [("TracksInfo", K + "collective/tracks.rs"), ("custom origins", K + "governance/origins.rs")])
p("C31", "Cross-chain identities of communities are unambiguous",
  "A cross-chain plurality location resolves to a community account only if it names a possible community number (0 to 65535), and different numbers resolve to different accounts; a community's own account presents itself to other chains as that community and no other account does. Foreign account locations resolve only for the relay chain's network.",
  ["inputs"], "all locations (all body ids, parents, junction lists, networks) and all accounts",
  "There is no test of these converters.",
  [K + "xcm_config/communities.rs", COR], [("PluralityConvertsToCommunityAccountId", K + "xcm_config/communities.rs"), ("SignedByCommunityToPlurality", K + "xcm_config/communities.rs"), ("AccountId32FromRelay", K + "xcm_config/communities.rs")])
p("C32", "Scheduled calls can be cancelled only by an equal or root authority",
  "An authority may act on another's scheduled call only if it is the same authority or root; no other pair of authorities is comparable.",
  ["inputs"], "all pairs of origins of the runtime",
  "There is no test of the comparison.",
  [K + "impls.rs"], [("EqualOrGreatestRootCmp", K + "impls.rs")])
p("C33", "Smart contracts can only make plain balance transfers",
  "From inside a smart contract only the plain native-token transfer call is permitted; every other call of every pallet, including forced or keep-alive variants and wrapped calls, is refused.",
  ["inputs"], "all calls of all pallets of the runtime",
  "There is no test of the contract call filter.",
  [K + "contracts.rs"], [("AllowBalancesCall", K + "contracts.rs")])
p("C34", "Foreign assets are only accepted from their reserve chain",
  "An incoming asset is accepted as backed only if the sending chain is the recognised reserve of that asset: a chain for its own assets, the asset hub for its own and for the foreign network's assets. An asset whose location merely resembles a recognised prefix is refused.",
  ["inputs"], "all pairs of asset location and sending location over a finite junction alphabet up to length four",
  "There is no test of the reserve filter.",
  [K + "xcm_config.rs"], [("matches_prefix, ReserveAssetsFrom, ReserveForeignAssetsFrom", K + "xcm_config.rs")])
p("C35", "Addresses resolve to the account they denote",
  "A direct address resolves to the same account, a community number resolves to that community's account, every other address form is refused, and writing an account as an address and resolving it again gives the same account.",
  ["inputs"], "all address forms, all community numbers and accounts",
  "There is no test of the lookup.",
  [K + "configuration/system_support.rs"], [("CommunityLookup", K + "configuration/system_support.rs")])
p("C36", "Only members (or root) open polls in a community, and only on its track",
  "A poll on a community's track can be opened only by root or by a current member of that very community, and a community's track can be changed only by the origin that governs it.",
  ["histories", "inputs"], "all submitters x tracks x membership histories; all origins x tracks",
  "There is no test of these origins.",
  [K + "communities/governance.rs"], [("EnsureCommunityMember", K + "communities/governance.rs"), ("EnsureOriginToTrack", K + "communities/governance.rs")])
p("C37", "Programs from other chains act only as their sender",
  "A program received from another chain acts here only with the authority of the place it comes from: that place's own account, that chain itself or, for the relay chain's network, the account of the same key; never as root, as a community or with a special power, except that the relay chain's named bodies rule what they are set to rule. Only the relay chain and its executive body run programs without paying, and teleported assets are refused.",
  ["inputs", "programs"], "all senders (places over a junction alphabet) x claimed origin kinds x programs paying, not paying or descending further",
  "There is no test of the barrier and the origin converters.",
  [K + "xcm_config.rs", K + "xcm_config/communities.rs"], [("XcmOriginToTransactDispatchOrigin, Barrier, Trader", K + "xcm_config.rs")])
p("C38", "Privileged operations answer only to those entitled to them",
  "Every call is heard only from the authorities it is meant for: forcing balances, assets, memberships, code or storage from root; uploading contract code from root and deploying it from root or the two chosen communities; ruling collators from root or the relay chain's staking body; opening the collective's doors, treasury spending and asset creation from nobody. Accounts that found a community pay half a unit and accounts that register a user pay the existential deposit, in full and to the treasury, while root founds and registers and communities register for free.",
  ["inputs", "histories"], "all calls of the runtime x all kinds of origin; all short histories of privileged operations by all kinds of origin",
  "There is no test of the runtime's configured origins and prices.",
  [K + "communities/mod.rs", K + "contracts.rs", K + "collective/mod.rs", "runtime/kreivo/src/lib.rs"], [("RegisterOrigin", K + "communities/mod.rs"), ("UploadOrigin, InstantiateOrigin", K + "contracts.rs"), ("CollatorSelectionUpdateOrigin", "runtime/kreivo/src/lib.rs")])
p("C39", "Transaction fees are exact and reach the right purse",
  "A transaction costs its flat fee, ten thousandths of a cent a byte, and the dearer of its computation (a hundredth of a cent for that of the smallest transaction) and its proof (a cent for ten thousand bytes), plus the tip; what was not used is given back. The sender alone pays exactly that and survives it or the transaction is refused without effect; native fees reach the treasury in full, fees in an accepted asset reach the block's author in full and vanish only if there is none who can hold them.",
  ["inputs", "histories"], "all weights, lengths, tips and used weights; payers rich, poor and penniless; native and asset fees, with and without an author",
  "There is no test of the fee formula of this runtime nor of where its fees go.",
  [K + "constants.rs", K + "configuration/monetary_stuff.rs", "runtime/common/src/impls.rs"], [("WeightToFee, RefTimeToFee, ProofSizeToFee", K + "constants.rs"), ("OnChargeTransaction, OnChargeAssetTransaction", K + "configuration/monetary_stuff.rs"), ("AssetsToBlockAuthor", "runtime/common/src/impls.rs")])
p("C40", "The collective does only what it has decided, once",
  "A motion of the collective is carried out, once and with just the authority it asked for, only if it was staked, prepared and then, within the time for deciding, had for the time of confirmation without a break the approval and support its kind needs at that moment: falling from all to nine tenths of the votes and none of the seats, or to half of both for creating memberships. Only seats of rank one and more vote, each weighing its rank and only once; at most one motion of a kind is decided on at a time and the best supported of those waiting comes next. Rejected, expired, cancelled and killed motions do nothing; fees and stakes are held meanwhile and given back, or go to the treasury when a motion is killed.",
  ["histories", "schedules"], "all histories of motions, stakes, votes changed or not, ranks raised and lowered by motions, cancellations and kills, and waiting for any time",
  "The outcome depends on how votes, changing ranks, falling thresholds, queues and days of blocks interleave; there is no test of the collective at all.",
  [K + "collective/mod.rs", K + "collective/governance.rs", K + "collective/tracks.rs"], [("TracksInfo", K + "collective/tracks.rs"), ("pallet_referenda::Config<KreivoReferendaInstance>", K + "collective/governance.rs"), ("AtLeastRank, pallet_ranked_collective::Config", K + "collective/mod.rs")])
p("C41", "A community does only what its members have decided, once",
  "What is done in a community's name by a poll is done once, after the poll was staked, prepared and had, for the time of confirmation without a break, the approval and the support its community's track asks for at that moment, measured by the way of deciding the community follows then. Only the community's own members open such polls and vote on them, only in the way the community decides by, and a poll reaches nothing but the community's own members, money, track and way of deciding. Polls that are rejected, expire, or are cancelled or killed (which only root may do) have no effect; stakes are held meanwhile and given back, or go to the treasury when a poll is killed.",
  ["histories", "schedules", "configurations"], "all histories of polls, stakes, votes, votes taken back, ranks, members, tracks and ways of deciding changed by polls under way, and waiting for any time, on tracks of any periods, thresholds and places",
  "The outcome depends on how votes, falling thresholds, queues, blocks and changes to the rules made by other polls interleave; tests only follow single polls through a mock.",
  [K + "communities/governance.rs", K + "communities/mod.rs", "pallets/communities/src/impls.rs", "pallets/communities/src/functions.rs"],
  [("pallet_referenda::Config<CommunityReferendaInstance>", K + "communities/governance.rs"), ("VoteTally for Tally", "pallets/communities/src/impls.rs"), ("try_vote", "pallets/communities/src/functions.rs")])
p("C42", "A signed transaction takes effect once, and only as signed",
  "A transaction takes effect only if its sender signed just this call on just these terms, for this chain and its present versions, within the lifetime it was given and with the sender's next number; otherwise nothing changes at all. One that is taken uses up the number whether or not its call succeeds, so that none is ever taken twice; only logging in with what a device shows of one of the last three blocks needs no number. Ordinary transactions take no more than three quarters of the two seconds of a block.",
  ["histories", "inputs", "schedules"], "all histories of transactions signed rightly and wrongly in every part, sent again and again, by accounts with and without money, over blocks passing and filling up",
  "Replays and expiry only show over histories and blocks; there is no test of how transactions are accepted.",
  ["runtime/kreivo/src/lib.rs", K + "configuration/system_support.rs"], [("SignedExtra, UncheckedExtrinsic, Executive", "runtime/kreivo/src/lib.rs"), ("RuntimeBlockWeights, CommunityLookup, Version", K + "configuration/system_support.rs")])
p("C43", "Whoever is acted for pays, from the gas of their memberships first",
  "The cost of a transaction is borne by its sender or, while the sender is a key acting for a user, by that user's account and never by the key. If a membership of the one who pays has gas enough for the call, just that much gas is used and no money; otherwise the exact fee is paid in money to the treasury or in the chosen asset to the block's author, and a transaction that can be paid for in neither way is refused. Logging in with a valid device is free, a failed attempt is not.",
  ["histories", "inputs"], "all histories of transactions of ordinary accounts, members and keys whose sessions start and expire, with gas full, short by one and used up, with and without money, tips and assets",
  "Who pays depends on sessions, memberships, gas and balances together; there is no test of who pays for transactions in this runtime.",
  ["runtime/kreivo/src/lib.rs", K + "configuration/monetary_stuff.rs"], [("ChargeTransaction, SignedExtra", "runtime/kreivo/src/lib.rs"), ("GasBurner, OnChargeAssetTransaction", K + "configuration/monetary_stuff.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
