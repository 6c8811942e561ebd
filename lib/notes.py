"""Technique and scope of each check, for MANIFEST.json."""
TV = "TLA+/TLC: exhaustive model, spec-generated inputs replayed on the real code, every observed result judged by the specification"
TP = "TLA+/TLC: Payments.tla explored exhaustively in small worlds; every edge replayed on the real pallet (in a small runtime over stand-ins of the substrate pallets) and every observed step, including long random histories, judged by the property's predicate in TLC"
PAY = " Worlds: up to 2 payments over 5 accounts, 1-2 assets, objection windows of 1-3 blocks, fee tables with shared, self and optional accounts, tight balances; plus seeded random histories of up to 60 calls with amounts up to 2^100. Bounded, not a proof for all histories."
TC = "TLA+/TLC: Communities.tla explored exhaustively in small worlds; every edge replayed on the real pallets (in a small runtime over stand-ins of the substrate pallets) and every observed step, including long random histories, judged by the property's predicate in TLC"
COMM = " Worlds: 2-3 communities, up to 4 memberships and voters, up to 4 polls, 2 assets, all kinds of callers; plus seeded random histories of up to 60 calls with amounts up to 2^40. Bounded, not a proof for all histories."
TM = TC.replace("Communities.tla", "Manager.tla")
def TK(spec):
    return f"TLA+/TLC: {spec}.tla explored exhaustively over a small alphabet; every edge replayed on the real kreivo runtime (its unmodified sources over stand-ins of the substrate and cross-chain pallets) and every observed step, including seeded random ones, judged by the property's predicate in TLC"
NOTES = {
    "C01": (TP, "Totals of free, locked and swept units per asset on every step, supply untouched, errors change nothing." + PAY),
    "C02": (TP, "Locked units of every account equal what its open payments require, after every step." + PAY),
    "C03": (TP, "Every stage change is one the life cycle allows, terms never change, what the stage, party and funds allow succeeds." + PAY),
    "C04": (TP, "Every call by every account, root and unsigned in every reachable world." + PAY),
    "C05": (TP, "Exact balance changes of every account on release and accept." + PAY),
    "C06": (TP, "Exact balance changes of every account on paying, cancelling and automatic refunds; the record is gone." + PAY),
    "C07": (TP, "Refunds happen in exactly the announced block, objections are possible until the block before." + PAY),
    "C08": (TP, "Exact balance changes of every account on rulings for either side at several percentages." + PAY),
    "C09": (TP, "Ids and parties correspond after every step, also when ids are issued again." + PAY),
    "C10": (TP, "The exact list of payment events of every step." + PAY),
    "C11": (TV, "All 3^8 combinations of boundary bytes, every byte value in every lane, edge triples and seeded random ids on the real code; base conversion proved lossless in a scaled-down exhaustive model. Not all 2^64 ids."),
    "C12": (TV, "Same ids printed and parsed back, plus thousands of altered, overlong, non-ASCII and separator-riddled texts; text form proved one-to-one in a scaled-down exhaustive model. A separator at an unusual place may be accepted or refused."),
    "C13": (TV, "All asset ids and all locations over a boundary alphabet up to 2 (thorough 3) junctions, all four-junction locations of the accepted shape and near it, all 256 pallets, plus seeded random ones."),
    "C14": (TC, "Who administers what, by storage and by asking the pallet for every origin, after every step; registration, its price, and handing over." + COMM),
    "C15": (TC, "Every administrative call by every kind of caller; nothing of another community ever changes." + COMM),
    "C16": (TC, "Exact place of every membership after every step, and the answers to membership queries of every account." + COMM),
    "C17": (TC, "Exact rank of every membership and the totals after every step, at both ends of the range." + COMM),
    "C18": (TC, "Change of ayes, nays and unmultiplied ayes on every step against the votes that came and went. Known deviations (weights that change after the vote, 32 bit limits) are listed and recognised only if the code did exactly that." + COMM),
    "C19": (TC, "Who may vote or withdraw with what, and the exact set of recorded votes after every step." + COMM),
    "C20": (TC, "Frozen units of every account and token against recorded votes and locks on every step; transfers of frozen and unfrozen funds. Two memberships of one account on one poll are a known deviation." + COMM),
    "C21": (TC.replace("Communities.tla", "Tally.tla"), "All combinations of 8 (thorough 14) values per count from 0 to 2^32-1 with electorates from 0 to 2^60 for every method, seeded random ones, and the polls of the histories of Communities.tla. Electorates beyond 32 bits are a known deviation."),
    "C22": (TC, "Calls inside of calls as a community's account by every kind of caller, privileged, failing and succeeding." + COMM),
    "C23": (TM, "All registrations of up to two (thorough three) communities where a collection, a track, a seat, money or room may be in the way; exact world after each, nothing left by failures."),
    "C24": (TM, "All mints over overlapping, taken and last ids in sequences of three (thorough four), and random ones with up to 1024 at a time; exact set of memberships, prices and owners after each."),
    "C25": (TK("KreivoPay"), "Exact fees, incentive, collectors and who may rule, for senders that are accounts, communities and admins, amounts from 1 to 2^60 in native and other assets, through payments carried to their end."),
    "C26": (TK("KreivoIds"), "Ids issued over sequences of heights and parties, parties colliding in the sampled bytes, counters that wrap, ids occupied."),
    "C27": (TK("KreivoCalls"), "Every call of the runtime (enumerated by decoding) under every proxy type, plain and wrapped in batches and derivatives, asked of the filter and carried out through a proxy; all histories of three steps of giving, using and taking away proxies. Twelve calls that a non-transfer proxy may make although they hand over funds are known deviations."),
    "C28": (TK("KreivoGov"), "Every kind of authority asked and used for every community: member, other pallets' accounts, mutated bytes of community accounts, other communities, administrators chosen by hand-over. Administrative calls and payments by each."),
    "C29": (TK("KreivoLogin"), "All claimed heights around the current one, right, wrong, shifted and constant challenges, at start, after the first blocks and at random heights; used directly and through logging in."),
    "C30": (TK("KreivoTracks"), "Every origin of the runtime against every track number; thresholds of every track at up to 1001 points of the decision period; referenda opened on each by each."),
    "C31": (TK("KreivoCross"), "Locations over an alphabet of junctions up to length 3 (random ones up to 4) with all body forms, networks and number boundaries; accounts of communities, of other pallets and mutated ones presented to other chains and sending."),
    "C32": (TK("KreivoSched"), "All pairs of origins over agendas of up to 2 (thorough 3) tasks, scheduled and cancelled, plus random histories."),
    "C33": (TK("KreivoCalls"), "Every call of the runtime (enumerated by decoding), plain and in five wrappings, asked of the filter and carried out by a contract; exact effects of the transfer calls."),
    "C34": (TK("KreivoCross"), "Assets and senders over an alphabet of junctions; claims received, teleported or reserve-deposited in whole programs, exact holdings afterwards."),
    "C35": (TK("KreivoAddress"), "All address forms with boundary contents, all community numbers at the edges and random ones, used in transfers."),
    "C36": (TK("KreivoGov"), "Polls opened by every kind of authority for every origin over membership histories; tracks inserted, changed and removed by each; cancels and kills by each."),
    "C37": (TK("KreivoCross"), "Senders over an alphabet of places, all four claimed kinds of origin, programs that pay, do not pay, pay from elsewhere or descend further, calls whose effect depends on the authority."),
    "C38": (TK("KreivoPowers"), "Every call of the runtime (enumerated by decoding) asked by 26 kinds of origin; all histories of three (thorough four) privileged operations by 19 kinds of origin with exact effects and prices, plus random ones."),
    "C39": (TK("KreivoFees"), "All histories of two (thorough three) transactions by rich and poor payers, paid natively or in assets, with tips, unused weight and free calls, with and without an author; random prices over the whole range of weights and lengths. The congestion multiplier stays at one."),
    "C40": (TK("KreivoMotions"), "All calls to depth 3 (thorough 4) from six beginnings with up to three motions of three seats, waits from one block to four days, every invariant of the life cycle; random histories of up to six seats and dozens of motions. Exact billionths for every threshold. The scheduler has room for whatever is due in a block."),
    "C41": (TK("KreivoDecide"), "All calls to depth 3 (thorough 4) from six beginnings with two communities deciding by membership and by rank on tracks of their own, every invariant of the life cycle; random histories of up to three communities and six accounts over random tracks. What votes come to when taken back under a changed way of deciding is left to C18; the native-token way of deciding to C21."),
    "C42": (TK("KreivoTx"), "All histories of three (thorough four) transactions of four senders, each right or wrong in one part, over waiting and full blocks, from two beginnings; once-only, only-as-signed and counting proved as action properties of the specification; random histories with replays. Signatures are stand-ins: a hash of what was signed and by whom. The checks themselves are stand-ins; which of them the runtime asks for, in which order, around what, and with which limits is its own."),
    "C43": (TK("KreivoTx"), "The same histories as C42, judged by who paid. How gas is counted is a stand-in without refilling; the fee itself is C39's."),
}
NOT_APPLICABLE = {}
