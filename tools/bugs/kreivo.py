K = "runtime/kreivo/src/"
PRE = '''use drv_kreivo::Session;
use drvlib::{json, Value};
fn ok(r: &Value) -> &Value {
	assert!(r["ok"] == true, "{r}");
	&r["post"]
}
fn refused(r: Value) {
	assert!(r["ok"] == false, "{r}");
}
fn session(cfg: Value) -> Session {
	let mut s = Session::default();
	s.handle(&json!({ "cfg": cfg }));
	s
}
fn user(n: u8) -> Value {
	json!(vec![n; 32])
}
fn signed(n: u8) -> Value {
	json!({"o": "signed", "a": user(n)})
}
// the account of one of a pallet's parts
fn part(pallet: &[u8; 8], n: u16) -> Value {
	let mut b = [&b"modl"[..], &pallet[..], &n.to_le_bytes()[..]].concat();
	b.resize(32, 0);
	json!(b)
}
fn account(net: &str) -> Value {
	json!({"t": "acc", "net": net, "id": user(5)})
}
fn place(p: u8, j: Vec<Value>) -> Value {
	json!({"p": p, "j": j})
}
fn chain(n: u32) -> Value {
	json!({"t": "para", "n": n})
}
fn pallet(n: u8) -> Value {
	json!({"t": "pal", "n": n})
}
'''
DEPS = ["drv-kreivo", "drvlib"]
PAY = '''
	let cfg = json!({"fam": "pay", "acct": [user(1), user(2), part(b"py/trsry", 0)], "min": [1], "free": [[5000, 5000, 5000]], "shift": 0});
	let mut s = session(cfg);
'''
GOV = '''
	let who = json!([{"o": "root"}, {"o": "community", "c": 1}, {"o": "community", "c": 2}, signed(1), signed(2), signed(3)]);
	let mut s = session(json!({"fam": "gov", "who": who, "comm": [1, 2], "spare": [], "adm": [4, 5], "pool": 3, "mem": [{"c": 1, "a": 6}]}));
'''
POWERS = '''
	let mut s = session(json!({"fam": "powers", "purse": [user(7), user(8)]}));
'''
CROSS = '''
	let mut s = session(json!({"fam": "cross", "assets": [], "rich": []}));
'''
CALLS = '''
	let mut s = session(json!({"fam": "calls", "prox": [{"of": 1, "d": 2, "ty": "NonTransfer"}, {"of": 1, "d": 3, "ty": "AssetOwner"}]}));
'''
FEES = '''
	let n = json!([1000, 0]);
	let mut s = session(json!({"fam": "fees", "min": [1, 0], "author": true, "rich": true, "nat": [n, n, n], "ast": [[n, n, n], [n, n, n]]}));
'''


def bug(id, property, needs, breaks, file, edits, body):
    return dict(id="kre-" + id, property=property, needs=needs, breaks=breaks, file=K + file if not file.startswith("/") else file[1:], edits=edits, deps=DEPS,
                main=PRE + "fn main() {\n" + body.lstrip("\n") + "}\n")


# seats of these ranks and a motion that is staked
def MOTION(ranks, power, deed):
    return '''	let mut s = session(json!({"fam": "motions", "rank": %s, "purse": [40]}));
	ok(&s.then(json!({"op": "open", "by": 1, "for": %s, "do": %s, "after": 0})));
	ok(&s.then(json!({"op": "stake", "by": 1, "i": 1})));
''' % (ranks, power, deed)


# two communities deciding that way, the first with members of these ranks, and a poll of it that is staked
def DECIDE(method, ranks, deed='{"k": "spend", "n": 2}'):
    return '''	let half = json!({"floor": 50, "ceil": 100});
	let tenth = json!({"floor": 10, "ceil": 100});
	let rules = json!([{"prep": 1, "period": 10, "confirm": 2, "enact": 1, "most": 1, "stake": 1, "app": half, "sup": tenth}]);
	let (way, ranks) = ("%s", json!(%s));
	let n = ranks.as_array().unwrap().len();
	let mut s = session(json!({"fam": "decide", "rules": rules, "rule": [1, 1], "meth": [way, way], "mem": [ranks, vec![-1; n]], "pool": [0, 0], "purse": vec![4; n],
		"kitty": [2, 2], "coin": [vec![1; n], vec![1; n]]}));
	ok(&s.then(json!({"op": "open", "by": 1, "for": 1, "do": %s, "after": 0})));
	ok(&s.then(json!({"op": "stake", "by": 1, "i": 1})));
''' % (method, ranks, deed)


BUGS = [
    bug("fees-rounded-up", "C25", "a payment whose share is not a whole number of units",
        "the fees of payments are rounded up instead of down",
        "payments.rs", [("min.max(fee.mul_floor(*amount))", "min.max(fee.mul_ceil(*amount))")],
        PAY + '''
	let w = ok(&s.then(json!({"op": "pay", "who": 1, "b": 2, "a": 1, "amt": 150}))).clone();
	assert!(w["pays"][0]["sf"] == json!([{"x": 3, "v": 1, "m": true}]) && w["pays"][0]["bf"] == json!([{"x": 3, "v": 4, "m": true}]), "{w}");
'''),
    bug("free-for-any-pallet", "C25", "a payment from or to the account of some pallet that is not a community's",
        "accounts of any pallet pay no fees, not just those of communities",
        "payments.rs", [("		let pallet_id = crate::communities::CommunityPalletId::get();\n", ""),
                        ("			|who| matches!(PalletId::try_from_sub_account::<CommunityId>(who), Some((pid, _)) if pallet_id == pid );", "			|who| PalletId::try_from_sub_account::<CommunityId>(who).is_some();")],
        '''
	let cfg = json!({"fam": "pay", "acct": [user(1), part(b"payments", 3), part(b"py/trsry", 0)], "min": [1], "free": [[5000, 5000, 5000]], "shift": 0});
	let mut s = session(cfg);
	let w = ok(&s.then(json!({"op": "pay", "who": 1, "b": 2, "a": 1, "amt": 200}))).clone();
	assert!(w["pays"][0]["bf"] == json!([{"x": 3, "v": 6, "m": true}]), "{w}");
'''),
    bug("id-of-the-sender", "C26", "requests of different payees in one extrinsic, or payments whose payee is read back from the id",
        "the id of a payment carries the payer instead of the payee",
        "payments.rs", [("fn next(_: &AccountId, beneficiary: &AccountId)", "fn next(sender: &AccountId, _: &AccountId)"),
                        ("Some((block, idx, beneficiary.encode().as_slice()).into())", "Some((block, idx, sender.encode().as_slice()).into())")],
        '''
	let mut s = session(json!({"fam": "ids"}));
	let a = s.then(json!({"op": "pay", "blk": [1, 0, 0, 0], "ext": [2, 0, 0, 0], "b": user(3)}));
	ok(&a);
	let b = s.then(json!({"op": "pay", "blk": [1, 0, 0, 0], "ext": [2, 0, 0, 0], "b": user(4)}));
	ok(&b);
	assert!(a["x"]["id"] != b["x"]["id"], "{a} {b}");
'''),
    bug("nontransfer-approved", "C27", "a proxy that may not transfer and an asset transfer other than the two plain ones",
        "proxies that must not transfer assets may transfer approved ones and force transfers",
        "impls.rs", [("!matches!(c, RuntimeCall::Balances { .. } | RuntimeCall::Assets { .. })",
                      "!matches!(\n\t\t\t\tc,\n\t\t\t\tRuntimeCall::Balances { .. }\n\t\t\t\t\t| RuntimeCall::Assets(KreivoAssetsCall::transfer { .. } | KreivoAssetsCall::transfer_keep_alive { .. })\n\t\t\t)")],
        CALLS + '''
	let r = s.then(json!({"op": "may", "ty": "NonTransfer", "in": "", "do": {"p": "Assets", "f": "transfer_approved"}}));
	assert!(r["x"]["may"] == false, "{r}");
'''),
    bug("owner-above-manager", "C27", "an asset owner's proxy that makes itself an asset manager's",
        "an asset owner's proxy counts as above an asset manager's, so it can hand on what it may not do",
        "impls.rs", [("(ProxyType::Assets, ProxyType::AssetManager) => true", "(ProxyType::Assets | ProxyType::AssetOwner, ProxyType::AssetManager) => true")],
        CALLS + '''
	let r = s.then(json!({"op": "above", "a": "AssetOwner", "b": "AssetManager"}));
	assert!(r["x"]["may"] == false, "{r}");
'''),
    bug("mangled-challenge", "C29", "a device that shows the beginning of a recent hash",
        "a challenge that only begins like the hash of a recent block is accepted",
        "configuration/system_support.rs", [("Self::generate(cx).eq(challenge).then_some(())", "Self::generate(cx).starts_with(challenge).then_some(())")],
        '''
	let mut s = session(json!({"fam": "login", "blk": 5}));
	refused(s.then(json!({"op": "reg", "u": 1, "d": 1, "k": 1, "au": true, "cx": 4, "ch": -3})));
	ok(&s.then(json!({"op": "reg", "u": 1, "d": 1, "k": 1, "au": true, "cx": 4, "ch": 4})));
'''),
    bug("killer-on-cancel-track", "C30", "a poll to kill another poll",
        "polls for the killer's authority are decided on the canceller's track and the other way round",
        "collective/tracks.rs", [("Origin::ReferendumCanceller => Ok(1)", "Origin::ReferendumCanceller => Ok(2)"), ("Origin::ReferendumKiller => Ok(2)", "Origin::ReferendumKiller => Ok(1)")],
        '''
	let mut s = session(json!({"fam": "tracks"}));
	let r = s.then(json!({"op": "for", "o": {"o": "killer"}}));
	assert!(r["x"]["t"] == 2, "{r}");
'''),
    bug("relay-account-any-network", "C31", "an account of the relay chain that names another network",
        "accounts that belong to another network are taken for the relay chain's",
        "xcm_config/communities.rs", [("if *network == Network::get() => id", "if network.is_some() == Network::get().is_some() => id")],
        CROSS + '''
	refused(s.then(json!({"op": "acct", "l": place(1, vec![account("polkadot")])})));
	ok(&s.then(json!({"op": "acct", "l": place(1, vec![account("kusama")])})));
'''),
    bug("any-community-cancels", "C32", "a task of one community cancelled by another",
        "communities may change each other's agenda",
        "impls.rs", [("			_ => None,\n		}\n	}\n}", "			(OriginCaller::Communities(_), OriginCaller::Communities(_)) => Some(Ordering::Equal),\n			_ => None,\n		}\n	}\n}")],
        '''
	let mut s = session(json!({"fam": "sched", "who": [{"o": "community", "c": 1}, {"o": "community", "c": 2}]}));
	ok(&s.then(json!({"op": "put", "n": 1, "at": 5, "o": 1})));
	refused(s.then(json!({"op": "drop", "n": 1, "o": 2})));
'''),
    bug("contracts-empty-accounts", "C33", "a contract that transfers all it has",
        "contracts may make another call than plain transfers",
        "contracts.rs", [("RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. })", "RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. } | BalancesCall::transfer_all { .. })")],
        CALLS + '''
	let r = s.then(json!({"op": "let", "in": "", "do": {"p": "Balances", "f": "transfer_all"}}));
	assert!(r["x"]["may"] == false, "{r}");
'''),
    bug("prefix-deeper-parents", "C34", "an asset of the asset hub's namesake one consensus further up",
        "assets of further away pass as assets of the asset hub",
        "xcm_config.rs", [("prefix.parent_count() == loc.parent_count()", "prefix.parent_count() <= loc.parent_count()")],
        CROSS + '''
	let r = |p| json!({"op": "vouch", "how": "reserve", "l": place(p, vec![chain(1000), pallet(50)]), "from": place(1, vec![chain(1000)])});
	refused(s.then(r(2)));
	ok(&s.then(r(1)));
'''),
    bug("prefix-shorter", "C34", "an asset that stands for the relay chain, coming from the asset hub",
        "what is only above the asset hub passes as one of its assets",
        "xcm_config.rs", [("		&& loc.len() >= prefix.len()\n", "")],
        CROSS + '''
	refused(s.then(json!({"op": "vouch", "how": "reserve", "l": place(1, vec![]), "from": place(1, vec![chain(1000)])})));
'''),
    bug("raw-addresses", "C35", "an address of 32 bytes that is not an account id",
        "addresses of a form that should be refused are taken for accounts",
        "configuration/system_support.rs", [("			_ => Err(LookupError),", "			MultiAddress::Address32(a) => Ok(a.into()),\n			_ => Err(LookupError),")],
        '''
	let mut s = session(json!({"fam": "address"}));
	refused(s.then(json!({"op": "resolve", "to": {"f": "32", "b": user(4)}})));
'''),
    bug("member-of-any", "C36", "a member of one community that opens a poll of another",
        "a member of any community may open polls of all communities",
        "communities/governance.rs", [("if T::MemberMgmt::is_member_of(&community_id, &who) {", "let _ = community_id;\n\t\t\t\tif T::MemberMgmt::user_memberships(&who, None).next().is_some() {")],
        GOV + '''
	refused(s.then(json!({"op": "open", "by": 6, "for": 3})));
	ok(&s.then(json!({"op": "open", "by": 6, "for": 2})));
'''),
    bug("track-of-another", "C36", "a community that updates the track of another with a lower number",
        "a community may change the tracks of others",
        "communities/governance.rs", [("ensure!(&track_id_for_origin == id, o);", "ensure!(&track_id_for_origin >= id, o);")],
        GOV + '''
	refused(s.then(json!({"op": "upd", "by": 3, "t": 1, "v": 2})));
	ok(&s.then(json!({"op": "upd", "by": 3, "t": 2, "v": 2})));
'''),
    bug("any-body-unpaid", "C37", "a message from a body of the relay chain that is not its executive",
        "every body of the relay chain has its messages executed for free",
        "xcm_config.rs", [("						id: BodyId::Executive,\n						..", "						..")],
        CROSS + '''
	let by = |b: &str| json!({"op": "call", "what": "remark", "as": "xcm", "paid": false, "then": [], "from": place(1, vec![]),
		"at": [{"t": "plu", "body": b, "n": [0, 0], "part": "voice"}]});
	refused(s.then(by("technical")));
'''),
    bug("communities-upload-code", "C38", "a community that uploads code",
        "a community may upload code",
        "contracts.rs", [("type UploadOrigin = EnsureRootWithSuccess<AccountId, TreasuryAccount>;",
                          "type UploadOrigin = EitherOf<EnsureRootWithSuccess<AccountId, TreasuryAccount>, AsSignedByStaticCommunity<Runtime, ConstU16<1>>>;")],
        POWERS + '''
	refused(s.then(json!({"op": "upload", "by": {"o": "community", "c": 1}, "n": 1})));
	ok(&s.then(json!({"op": "upload", "by": {"o": "root"}, "n": 1})));
'''),
    bug("canceller-mints", "C38", "memberships made by an authority meant for something else",
        "whoever may cancel polls may make memberships",
        "communities/mod.rs", [("type CreateMembershipsOrigin = EitherOf<EnsureRoot<AccountId>, CreateMemberships>;",
                                "type CreateMembershipsOrigin =\n\t\tEitherOf<EnsureRoot<AccountId>, EitherOf<CreateMemberships, pallet_custom_origins::ReferendumCanceller>>;")],
        POWERS + '''
	refused(s.then(json!({"op": "mint", "by": {"o": "canceller"}, "n": 1})));
	ok(&s.then(json!({"op": "mint", "by": {"o": "memberships"}, "n": 1})));
'''),
    bug("founding-for-less", "C38", "someone who founds a community and the price they pay",
        "founding a community costs a twentieth of a unit",
        "communities/mod.rs", [("CommunityDepositAmount: Balance = UNITS / 2;", "CommunityDepositAmount: Balance = UNITS / 20;")],
        POWERS + '''
	let r = s.then(json!({"op": "found", "by": signed(7), "n": 5}));
	let amount = |v: &Value| (v[0].as_u64().unwrap() << 30) + v[1].as_u64().unwrap();
	assert!(amount(&ok(&r)["spent"][0]) * 2 == amount(&r["x"]["unit"]), "{r}");
'''),
    bug("cheaper-resource", "C39", "a call that takes much of one resource and little of the other",
        "the price of a call follows the resource it takes less of",
        "constants.rs", [(".max(proof_poly.eval(weight.proof_size()))", ".min(proof_poly.eval(weight.proof_size()))")],
        FEES + '''
	let r = s.then(json!({"op": "price", "n": 0, "w": {"t": [900, 0], "p": [0, 0]}}));
	assert!(r["x"]["weighed"] != json!([0, 0]), "{r}");
'''),
    bug("native-fees-vanish", "C39", "a transaction paid in the chain's own currency and the treasury afterwards",
        "the fees are destroyed instead of going to the treasury",
        "configuration/monetary_stuff.rs", [("ResolveTo<TreasuryAccount, Balances>", "()")],
        FEES + '''
	let r = s.then(json!({"op": "tx", "by": 1, "n": 100, "w": {"t": [0, 1000], "p": [0, 0]}, "tip": [0, 0], "in": 0}));
	assert!(ok(&r)[0]["total"] == r["pre"][0]["total"], "{r}");
'''),
    bug("memberships-support", "C40", "a motion for memberships that a minority of the seats is for, late in its decision period",
        "memberships are created with the support of a quarter of the seats",
        "collective/tracks.rs", [("make_linear(28, 28, percent(50), percent(100))", "make_linear(28, 28, percent(25), percent(100))")],
        MOTION("[1, 1, 1]", '"memberships"', '{"k": "mint", "n": 7}') + '''
	ok(&s.then(json!({"op": "vote", "by": 1, "i": 1, "aye": true})));
	let r = s.then(json!({"op": "wait", "n": 40000}));
	assert!(ok(&r)["polls"][0]["st"] == "rejected", "{r}");
'''),
    bug("observers-vote", "C40", "a seat without rank that votes",
        "seats of rank zero vote, and everyone else's vote weighs more",
        "collective/mod.rs", [("type MinRankOfClass = AtLeastRank<1>;", "type MinRankOfClass = AtLeastRank<0>;")],
        MOTION("[1, 0]", '"memberships"', '{"k": "mint", "n": 7}') + '''
	refused(s.then(json!({"op": "vote", "by": 2, "i": 1, "aye": true})));
'''),
    bug("every-seat-the-same", "C40", "seats of different rank that disagree",
        "a vote weighs the same whatever the seat's rank",
        "collective/mod.rs", [("type VoteWeight = pallet_ranked_collective::Linear;", "type VoteWeight = pallet_ranked_collective::Unit;")],
        MOTION("[9, 1]", '"memberships"', '{"k": "mint", "n": 7}') + '''
	ok(&s.then(json!({"op": "vote", "by": 1, "i": 1, "aye": true})));
	let r = s.then(json!({"op": "vote", "by": 2, "i": 1, "aye": false}));
	assert!(ok(&r)["polls"][0]["ayes"] == 9 && r["post"]["polls"][0]["nays"] == 1, "{r}");
'''),
    bug("slashed-into-nothing", "C40", "a motion that is killed, and the treasury afterwards",
        "the fee and stake of a killed motion are destroyed instead of going to the treasury",
        "collective/governance.rs", [("type Slash = Treasury;", "type Slash = ();")],
        MOTION("[1]", '"memberships"', '{"k": "mint", "n": 7}') + '''
	ok(&s.then(json!({"op": "open", "by": 1, "for": "killer", "do": {"k": "kill", "n": 1}, "after": 0})));
	ok(&s.then(json!({"op": "stake", "by": 1, "i": 2})));
	ok(&s.then(json!({"op": "vote", "by": 1, "i": 2, "aye": true})));
	let r = s.then(json!({"op": "wait", "n": 2000}));
	assert!(ok(&r)["polls"][0]["st"] == "killed", "{r}");
	assert!(r["post"]["pot"] == 2, "{r}");
'''),
    bug("two-at-a-time", "C40", "two motions of the highest authority at once",
        "two motions of the highest authority are decided on at the same time",
        "collective/tracks.rs", [("max_deciding: 1,\n\t\t\t\t\tdecision_deposit: 10 * UNITS,", "max_deciding: 2,\n\t\t\t\t\tdecision_deposit: 10 * UNITS,")],
        MOTION("[1]", '"root"', '{"k": "raise", "n": 1}') + '''
	ok(&s.then(json!({"op": "open", "by": 1, "for": "root", "do": {"k": "raise", "n": 1}, "after": 0})));
	ok(&s.then(json!({"op": "stake", "by": 1, "i": 2})));
	let r = s.then(json!({"op": "wait", "n": 100}));
	assert!(ok(&r)["polls"][0]["since"] != 0 && r["post"]["polls"][1]["since"] == 0, "{r}");
'''),
    bug("slim-majority-is-root", "C40", "a motion of the highest authority that nearly half of the votes are against, late in its decision period",
        "three fifths of the votes are enough for the highest authority",
        "collective/tracks.rs", [("decision_deposit: 10 * UNITS,\n\t\t\t\t\tprepare_period: 15 * MINUTES,\n\t\t\t\t\tdecision_period: 4 * DAYS,\n\t\t\t\t\tconfirm_period: 15 * MINUTES,\n\t\t\t\t\tmin_enactment_period: 1,\n\t\t\t\t\tmin_approval: pallet_referenda::Curve::LinearDecreasing {\n\t\t\t\t\t\tlength: Perbill::from_percent(100),\n\t\t\t\t\t\tfloor: Perbill::from_percent(90),",
                                  "decision_deposit: 10 * UNITS,\n\t\t\t\t\tprepare_period: 15 * MINUTES,\n\t\t\t\t\tdecision_period: 4 * DAYS,\n\t\t\t\t\tconfirm_period: 15 * MINUTES,\n\t\t\t\t\tmin_enactment_period: 1,\n\t\t\t\t\tmin_approval: pallet_referenda::Curve::LinearDecreasing {\n\t\t\t\t\t\tlength: Perbill::from_percent(100),\n\t\t\t\t\t\tfloor: Perbill::from_percent(60),")],
        MOTION("[4, 1]", '"root"', '{"k": "raise", "n": 1}') + '''
	ok(&s.then(json!({"op": "vote", "by": 1, "i": 1, "aye": true})));
	ok(&s.then(json!({"op": "vote", "by": 2, "i": 1, "aye": false})));
	let r = s.then(json!({"op": "wait", "n": 40000}));
	assert!(ok(&r)["polls"][0]["st"] == "rejected" && r["post"]["rank"][0] == 4, "{r}");
'''),
    bug("queue-by-heads", "C41", "a community that decides by rank with more polls waiting for their turn than may be decided at once",
        "polls waiting for their turn are ordered by heads in favour, not by the weight of their votes",
        "/pallets/communities/src/impls.rs", [("-> VoteWeight {\n\t\tself.ayes\n", "-> VoteWeight {\n\t\tself.bare_ayes\n")],
        DECIDE("rank", "[5, 1, 1]") + '''
	for i in 2..=3 {
		ok(&s.then(json!({"op": "open", "by": i, "for": 1, "do": {"k": "spend", "n": 2}, "after": 0})));
		ok(&s.then(json!({"op": "stake", "by": i, "i": i})));
	}
	ok(&s.then(json!({"op": "vote", "by": 1, "c": 1, "i": 2, "aye": true, "v": "one", "n": 1})));
	ok(&s.then(json!({"op": "vote", "by": 2, "c": 1, "i": 3, "aye": true, "v": "one", "n": 1})));
	ok(&s.then(json!({"op": "vote", "by": 3, "c": 1, "i": 3, "aye": true, "v": "one", "n": 1})));
	ok(&s.then(json!({"op": "wait", "n": 3})));
	ok(&s.then(json!({"op": "cancel", "i": 1, "as": "root"})));
	let r = s.then(json!({"op": "wait", "n": 2}));
	assert!(ok(&r)["polls"][1]["since"] != 0 && r["post"]["polls"][2]["since"] == 0, "{r}");
'''),
    bug("nays-without-rank", "C41", "a community that decides by rank and a poll that somebody of high rank is against",
        "votes against a poll count one each, whatever the rank",
        "/pallets/communities/src/functions.rs", [("self.nays.saturating_add(multiplied_weight)", "self.nays.saturating_add(weight)"),
                                                  ("self.nays.saturating_sub(multiplied_weight)", "self.nays.saturating_sub(weight)")],
        DECIDE("rank", "[2, 4]") + '''
	ok(&s.then(json!({"op": "vote", "by": 1, "c": 1, "i": 1, "aye": true, "v": "one", "n": 1})));
	ok(&s.then(json!({"op": "vote", "by": 2, "c": 1, "i": 1, "aye": false, "v": "one", "n": 1})));
	let r = s.then(json!({"op": "wait", "n": 30}));
	assert!(ok(&r)["polls"][0]["st"] == "rejected" && r["post"]["kitty"][0] == 2, "{r}");
'''),
    bug("abandoned-early", "C41", "a poll of a community that finds its stake only after a day",
        "polls nobody puts up a stake for are given up after hours instead of days",
        "communities/governance.rs", [("UndecidingTimeout: BlockNumber = 14 * DAYS", "UndecidingTimeout: BlockNumber = 14 * HOURS")],
        DECIDE("membership", "[0, 0]") + '''
	ok(&s.then(json!({"op": "open", "by": 2, "for": 1, "do": {"k": "spend", "n": 2}, "after": 0})));
	ok(&s.then(json!({"op": "wait", "n": 7200})));
	let r = s.then(json!({"op": "stake", "by": 1, "i": 2}));
	assert!(ok(&r)["polls"][1]["st"] == "open", "{r}");
'''),
    bug("stakes-of-communities-burnt", "C41", "a poll of a community that root kills, and the treasury afterwards",
        "the stake of a poll that is killed is destroyed instead of going to the treasury",
        "communities/governance.rs", [("type Slash = Treasury;", "type Slash = ();")],
        DECIDE("membership", "[0, 0]") + '''
	let r = s.then(json!({"op": "kill", "i": 1, "as": "root"}));
	assert!(ok(&r)["pot"] == 1, "{r}");
'''),
    bug("canceller-in-communities", "C41", "the collective's power to cancel used on a poll of a community",
        "the collective cancels the polls of communities",
        "communities/governance.rs", [("type CancelOrigin = EnsureRoot<AccountId>;", "type CancelOrigin = EitherOf<EnsureRoot<AccountId>, pallet_custom_origins::ReferendumCanceller>;")],
        DECIDE("membership", "[0, 0]") + '''
	refused(s.then(json!({"op": "cancel", "i": 1, "as": "canceller"})));
'''),
]
