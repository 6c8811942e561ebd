L = "pallets/communities/src/lib.rs"
F = "pallets/communities/src/functions.rs"
O = "pallets/communities/src/origin.rs"
T = "pallets/communities/src/types.rs"
I = "pallets/communities/src/impls.rs"
M = "pallets/communities-manager/src/lib.rs"
PRE = '''use drv_communities::Session;
use drvlib::{json, Value};
fn poll(c: u64) -> Value {
	json!({"st": "open", "c": c, "ayes": [0, 0], "nays": [0, 0], "bare": [0, 0]})
}
// communities 1 and 2 administered by users 1 and 2; memberships 1 and 2 of community 1 held by
// user 3 (rank 2) and 4 (rank 0), membership 3 of community 2 by user 4; polls 1, 2 and 3 of
// community 1, 2 and 1
fn world(method: Value) -> Session {
	let mut s = Session::default();
	let z: Value = json!([0, 0]);
	s.handle(&json!({"cfg": {"price": [0, 20], "init": {
		"comm": ["active", "active", "none"], "adm": [{"o": 1, "c": 1}, {"o": 2, "c": 2}],
		"meth": [method.clone(), method.clone(), method],
		"items": [{"m": 1, "c": 1, "o": 3, "r": 2}, {"m": 2, "c": 1, "o": 4, "r": 0}, {"m": 3, "c": 2, "o": 4, "r": 1}, {"m": 4, "c": 0, "o": 101, "r": 0}, {"m": 5, "c": 1, "o": 3, "r": 1}],
		"tot": [{"n": 3, "r": 3}, {"n": 1, "r": 1}, {"n": 0, "r": 0}], "polls": [poll(1), poll(2), poll(1)], "votes": [], "locks": [],
		"bal": [[0, 100], [0, 100], [0, 100], [0, 100]], "cbal": [[0, 50], [0, 50], [0, 0]], "rbal": [0, 10], "frz": [z, z, z, z],
		"abal": [[[0, 100], [0, 100], [0, 100], [0, 100]], [[0, 100], [0, 100], [0, 100], [0, 100]]], "afrz": [[z, z, z, z], [z, z, z, z]]}}}));
	s
}
fn me(k: &str) -> Value {
	json!({"k": k, "a": 0, "min": [0, 0]})
}
fn asset(a: u64, min: u64) -> Value {
	json!({"k": "asset", "a": a, "min": [0, min]})
}
fn vote(who: u64, m: u64, p: u64, say: bool, k: &str, a: u64, amt: u64) -> Value {
	json!({"op": "vote", "who": who, "m": m, "p": p, "say": say, "k": k, "a": a, "amt": [0, amt]})
}
fn ok(r: &Value) -> &Value {
	assert!(r["ok"] == true, "{r}");
	&r["post"]
}
fn refused(r: Value) {
	assert!(r["ok"] == false, "{r}");
}
fn registry() -> Session {
	let mut s = Session::default();
	s.handle(&json!({"cfg": {"price": [0, 20], "tracks": 2, "manager": true, "collections": [], "inducted": [], "tracked": [], "taken": [], "init": {"comm": ["none", "none", "none"],
		"bal": [[0, 100], [0, 100], [0, 100]], "rbal": [0, 10], "cbal": [[0, 0], [0, 0], [0, 0]]}}}));
	s
}
fn reg(who: u64, c: u64, x: u64) -> Value {
	json!({"op": "reg", "who": who, "c": c, "name": [86], "x": x, "me": [], "tr": false})
}
fn mint(n: u64, m: u64) -> Value {
	json!({"op": "mkm", "who": 99, "n": n, "m": [0, m], "price": [0, 7]})
}
'''
DEPS = ["drv-communities", "drvlib"]


def bug(id, property, needs, breaks, file, edits, body):
    return dict(id=id, property=property, needs=needs, breaks=breaks, file=file, edits=edits, deps=DEPS, main=PRE + "fn main() {\n" + body + "}\n")


BUGS = [
 bug("com-old-admin-stays", "C14", "a change of admin followed by a call of the old admin",
  "The old admin keeps control after the community was handed to a new one.", L,
  [("			CommunityIdFor::<T>::remove(origin.caller());\n", "")],
  """	let mut s = world(me("std"));
	ok(&s.then(json!({"op": "setadm", "who": 1, "o": 4})));
	refused(s.then(json!({"op": "add", "who": 1, "x": 3})));
"""),
 bug("com-two-communities-one-admin", "C14", "creating a community for somebody who administers one already",
  "An admin of one community can be made the admin of a new one, and loses control of the first.", F,
  [("		ensure!(!CommunityIdFor::<T>::contains_key(admin), Error::<T>::AlreadyAdmin);\n", "")],
  """	let mut s = world(me("std"));
	refused(s.then(json!({"op": "create", "who": 99, "o": 1, "c": 3})));
"""),
 bug("com-blocked-admin", "C15", "a blocked community whose signed admin goes on administering it",
  "Blocking a community only stops its own origin, its admin can go on.", O,
  [("""				CommunityIdFor::<T>::get(origin).ok_or_else(|| o.clone())?
""", """				return CommunityIdFor::<T>::get(origin)
					.filter(|id| Info::<T>::contains_key(id))
					.ok_or_else(|| o.clone());
""")],
  """	let mut s = world(me("std"));
	s.then(json!({"op": "block", "who": 0, "c": 1}));
	refused(s.then(json!({"op": "pro", "who": 1, "m": 1})));
"""),
 bug("com-removes-first-membership", "C16", "removing the second of two memberships of one member",
  "The member's first membership of the community is withdrawn instead of the named one.", L,
  [("			T::MemberMgmt::release(&community_id, &membership_id)?;\n", """			let held = Self::get_memberships(community_id, &who);
			T::MemberMgmt::release(&community_id, held.first().unwrap_or(&membership_id))?;
""")],
  """	let mut s = world(me("std"));
	let r = s.then(json!({"op": "rem", "who": 1, "x": 3, "m": 5}));
	let w = ok(&r);
	assert!(w["items"].as_array().unwrap().iter().any(|i| i["m"] == 1 && i["o"] == 3), "{w}");
	let mut s = world(me("std"));
	let r = s.then(json!({"op": "rem", "who": 1, "x": 3, "m": 1}));
	let w = ok(&r);
	assert!(w["items"].as_array().unwrap().iter().any(|i| i["m"] == 5 && i["o"] == 3), "{w}");
"""),
 bug("com-members-by-any-community", "C16", "asking for membership of a community for a member of another one",
  "A member of any community is taken for a member of every community.", F,
  [("		T::MemberMgmt::is_member_of(community_id, who)\n", "		T::MemberMgmt::is_member_of(community_id, who) || T::MemberMgmt::user_memberships(who, None).next().is_some()\n")],
  """	let s = world(me("std"));
	assert_eq!(s.now()["ask"][1][2]["is"], false);
"""),
 bug("com-promote-nobody", "C17", "promoting a membership nobody holds",
  "A membership of the pool can be promoted, which raises the total rank without any member having it.", L,
  [("""				.ok_or(Error::<T>::NotAMember)?
				.promote_by(ONE);
""", """				.unwrap_or_default()
				.promote_by(ONE);
""")],
  """	let mut s = world(me("std"));
	let was = s.now()["tot"][0]["r"].clone();
	let r = s.then(json!({"op": "pro", "who": 1, "m": 4}));
	assert!(r["ok"] == false && s.now()["tot"][0]["r"] == was, "{r}");
"""),
 bug("com-unmultiplied-multiplied", "C18", "withdrawing an aye by rank while others stay",
  "Withdrawing an aye takes its weight times the rank off the unmultiplied ayes.", F,
  [("			self.bare_ayes = self.bare_ayes.saturating_sub(weight);\n", "			self.bare_ayes = self.bare_ayes.saturating_sub(multiplied_weight.max(weight));\n")],
  """	let mut s = world(me("rank"));
	ok(&s.then(vote(3, 1, 1, true, "std", 0, 0)));
	ok(&s.then(vote(3, 5, 1, true, "std", 0, 0)));
	let r = s.then(json!({"op": "unvote", "who": 3, "m": 1, "p": 1}));
	assert_eq!(ok(&r)["polls"][0]["bare"], json!([0, 1]));
"""),
 bug("com-same-say-counts-twice", "C18", "a member votes again the same way",
  "A second vote that says the same as the first is counted on top of it.", L,
  [("			if CommunityVotes::<T>::contains_key(poll_index, membership_id) {\n", "			if CommunityVotes::<T>::get(poll_index, membership_id).is_some_and(|(old, _)| old.say() != vote.say()) {\n")],
  """	let mut s = world(me("std"));
	ok(&s.then(vote(3, 1, 1, false, "std", 0, 0)));
	let r = s.then(vote(3, 1, 1, false, "std", 0, 0));
	assert_eq!(ok(&r)["polls"][0]["nays"], json!([0, 1]));
"""),
 bug("com-vote-elsewhere", "C19", "a member votes on a poll of another community",
  "Members can vote on polls of communities they do not belong to.", F,
  [("""			ensure!(community_id == &class, Error::<T>::InvalidTrack);

			let vote_multiplier""", """			ensure!(Self::community_exists(&class), Error::<T>::InvalidTrack);

			let vote_multiplier""")],
  """	let mut s = world(me("std"));
	refused(s.then(vote(3, 1, 2, true, "std", 0, 0)));
"""),
 bug("com-vote-with-any-asset", "C19", "a community that decides by one asset and a vote with another",
  "A vote backed by any asset is accepted where the community decides by a particular one.", F,
  [("DecisionMethod::CommunityAsset(a, min)) if asset == a => {", "DecisionMethod::CommunityAsset(_, min)) if asset.encoded_size() > 0 => {")],
  """	let mut s = world(asset(1, 3));
	refused(s.then(vote(3, 1, 1, true, "asset", 2, 50)));
"""),
 bug("com-unfreezes-all", "C20", "unlocking after one of two polls voted on with native tokens",
  "Releasing the lock of one poll releases the tokens that back votes on other polls too.", F,
  [("""					if let Vote::NativeBalance(_, amount) = locked_vote {
						amount_to_freeze = amount_to_freeze.max(amount)
					}
""", """					if let Vote::NativeBalance(_, amount) = locked_vote {
						amount_to_freeze = amount_to_freeze.min(amount)
					}
""")],
  """	let mut s = world(me("native"));
	ok(&s.then(vote(3, 1, 1, true, "native", 0, 60)));
	ok(&s.then(vote(3, 1, 3, true, "native", 0, 40)));
	let r = s.then(json!({"op": "unvote", "who": 3, "m": 1, "p": 1}));
	assert_eq!(ok(&r)["frz"][2], json!([0, 40]));
"""),
 bug("com-freezes-other-asset", "C20", "votes with two assets, the larger one withdrawn last",
  "When a vote is withdrawn, what stays frozen of its asset counts locks of other assets too.", F,
  [("						if id == asset_id {\n							amount_to_freeze = amount_to_freeze.max(amount)\n						}", "						if id != asset_id || amount > amount_to_freeze {\n							amount_to_freeze = amount_to_freeze.max(amount)\n						}")],
  """	let mut s = world(asset(1, 1));
	ok(&s.then(json!({"op": "meth", "who": 2, "c": 2, "me": asset(2, 1)})));
	ok(&s.then(vote(4, 2, 1, true, "asset", 1, 30)));
	ok(&s.then(vote(4, 3, 2, true, "asset", 2, 80)));
	let r = s.then(json!({"op": "unvote", "who": 4, "m": 2, "p": 1}));
	assert_eq!(ok(&r)["afrz"][0][3], json!([0, 0]));
"""),
 bug("com-support-by-heads", "C21", "a poll decided by rank",
  "Support of a poll decided by rank is measured against the number of members, not against their ranks.", T,
  [("			DecisionMethod::Rank => T::MemberMgmt::ranks_total(&community_id),\n", "			DecisionMethod::Rank => T::MemberMgmt::members_total(&community_id).max(1),\n")],
  """	let mut s = Session::default();
	let r = s.handle(&json!({"tally": {"me": "rank", "elect": [0, 8], "ayes": [0, 4], "nays": [0, 0], "bare": [0, 2]}}));
	assert_eq!(r["sup"], 250_000_000, "{r}");
"""),
 bug("com-support-by-weight", "C21", "a tally whose ayes weigh more than one each",
  "Support counts ayes times their rank.", I,
  [("		Perbill::from_rational(self.bare_ayes, Self::max_support(community_id))\n", "		Perbill::from_rational(self.bare_ayes.max(self.ayes), Self::max_support(community_id))\n")],
  """	let mut s = Session::default();
	let r = s.handle(&json!({"tally": {"me": "rank", "elect": [0, 8], "ayes": [0, 4], "nays": [0, 0], "bare": [0, 2]}}));
	assert_eq!(r["sup"], 250_000_000, "{r}");
"""),
 bug("com-inner-failure-hidden", "C22", "acting as the community with a call that fails",
  "A failing call made as the community's account is reported as a success.", F,
  [("		let post = call.dispatch(signer.into()).map_err(|e| e.error)?;\n", "		let post = call.dispatch(signer.into()).unwrap_or_else(|e| e.post_info);\n")],
  """	let mut s = world(me("std"));
	refused(s.then(json!({"op": "as", "who": 1, "in": {"op": "give", "who": 0, "x": 2, "amt": [0, 5000]}})));
"""),
 bug("com-register-without-track", "C23", "a registration when there is no room for another track",
  "A community is registered, and paid for, although its governance track could not be created.", M,
  [("""				community_origin.into_caller(),
			)?;
""", """				community_origin.into_caller(),
			)
			.ok();
""")],
  """	let mut s = registry();
	ok(&s.then(reg(99, 1, 1)));
	ok(&s.then(reg(99, 2, 2)));
	refused(s.then(json!({"op": "reg", "who": 1, "c": 3, "name": [86], "x": 3, "me": [], "tr": false})));
"""),
 bug("com-one-price-for-all", "C24", "creating more than one membership at once",
  "Only the first of the created memberships is put on sale.", M,
  [("""				T::CreateMemberships::set_price(
					&T::MembershipsManagerCollectionId::get(),
					&id,
""", """				T::CreateMemberships::set_price(
					&T::MembershipsManagerCollectionId::get(),
					&starting_at,
""")],
  """	let mut s = registry();
	let r = s.then(mint(2, 5));
	let w = ok(&r);
	assert!(w["items"].as_array().unwrap().iter().all(|i| i["price"] == json!([[0, 7], 0])), "{w}");
"""),
 bug("com-batch-limit", "C24", "a request for exactly as many memberships as one call may create",
  "The largest permitted batch is refused.", M,
  [("amount <= 1024u16", "amount < 1024u16")],
  """	let mut s = registry();
	let r = s.then(mint(1024, 5));
	assert_eq!(ok(&r)["items"].as_array().unwrap().len(), 1024);
"""),
]
