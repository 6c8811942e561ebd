//! How communities decide: polls of their members, on their own tracks, and what comes of them.
//! cfg: {rules: tracks to choose from, rule: per community, meth: per community, mem: per community the rank
//! of each account (-1: no member), pool: memberships left per community, purse: per account, kitty: per
//! community, coin: per community what each account holds of its asset}
use crate::{base::*, Family};
use codec::{Decode, Encode};
use drvlib::{json, Value};
use fc_traits_memberships::{Inspect, Rank};
use frame_support::traits::{fungibles::Mutate, schedule::DispatchTime, Currency, QueryPreimage, ReservableCurrency, StorePreimage};
use kreivo_runtime::{communities::governance::CommunityReferendaInstance as Polls, communities::governance::CommunityTracksInstance as Tracks, *};
use pallet_communities::types::{DecisionMethod, Vote};
use pallet_referenda::{Curve, Deposit, ReferendumInfo, TrackInfo};
use sp_runtime::Perbill;
use std::cell::RefCell;
use virto_common::FungibleAssetLocation as Loc;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
thread_local! { static CFG: RefCell<Value> = Default::default(); }
fn cfg() -> Value {
	CFG.with(|c| c.borrow().clone())
}
fn comms() -> u64 {
	list(&cfg()["rule"]).len() as u64
}
fn people() -> u64 {
	list(&cfg()["purse"]).len() as u64
}
fn person(n: u64) -> AccountId {
	[n as u8; 32].into()
}
fn number(a: &AccountId) -> u64 {
	(1..=people()).find(|n| person(*n) == *a).unwrap_or(999)
}
fn community(c: u64) -> AccountId {
	Communities::community_account(&(c as u16))
}
fn voice(c: u64) -> OriginCaller {
	pallet_communities::Origin::<Runtime>::new(c as u16).into()
}
fn units(b: Balance) -> Value {
	if b % UNITS == 0 { json!((b / UNITS) as u64) } else { json!(-1) }
}
fn track(r: &Value) -> TrackInfo<Balance, BlockNumber> {
	let curve = |v: &Value| Curve::LinearDecreasing {
		length: Perbill::from_percent(100),
		floor: Perbill::from_percent(u(&v["floor"]) as u32),
		ceil: Perbill::from_percent(u(&v["ceil"]) as u32),
	};
	let n = |f: &str| u(&r[f]) as u32;
	TrackInfo {
		name: [b't'; 25],
		max_deciding: n("most"),
		decision_deposit: u(&r["stake"]) as Balance * UNITS,
		prepare_period: n("prep"),
		decision_period: n("period"),
		confirm_period: n("confirm"),
		min_enactment_period: n("enact"),
		min_approval: curve(&r["app"]),
		min_support: curve(&r["sup"]),
	}
}
const METHODS: [&str; 3] = ["membership", "rank", "asset"];
fn method(m: &str, c: u64) -> DecisionMethod<Loc, Balance> {
	match m {
		"membership" => DecisionMethod::Membership,
		"rank" => DecisionMethod::Rank,
		"asset" => DecisionMethod::CommunityAsset(Loc::Here(c as u32), 1),
		_ => panic!("harness: no method {m}"),
	}
}
/// the membership an account got when the world started, or one that does not exist
fn membership(c: u64, a: u64) -> u32 {
	noted(&format!("m{c}-{a}")).unwrap_or((50000 + c * 100 + a) as u32)
}
fn start(c: &Value) {
	CFG.with(|x| *x.borrow_mut() = c.clone());
	block(1);
	let root = RuntimeOrigin::root;
	let give = |who: AccountId, n: &Value| {
		must("balance", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id(who), new_free: u(n) as Balance * UNITS + ExistentialDeposit::get() }, root()))
	};
	let treasury = Treasury::account_id();
	give(treasury.clone(), &json!(1));
	for n in 1..=people() {
		give(person(n), &c["purse"][n as usize - 1]);
	}
	<CommunityMemberships as frame_support::traits::nonfungibles_v2::Create<_, _>>::create_collection_with_id(0, &treasury, &treasury, &Default::default())
		.unwrap_or_else(|e| panic!("harness: collection {e:?}"));
	for n in 1..=comms() {
		let i = n as usize - 1;
		let call = pallet_communities_manager::Call::register {
			community_id: n as u16,
			name: b"name".to_vec().try_into().expect("name"),
			first_admin: Address::Id([n as u8 + 100; 32].into()),
			maybe_decision_method: Some(method(s(&c["meth"][i]), n)),
			maybe_track_info: Some(track(&c["rules"][u(&c["rule"][i]) as usize - 1])),
		};
		must("community", dispatch(RuntimeCall::CommunitiesManager(call), root()));
		give(community(n), &c["kitty"][i]);
		let ranks = list(&c["mem"][i]);
		let members: Vec<u64> = (1..=people()).filter(|a| ranks[*a as usize - 1].as_i64() >= Some(0)).collect();
		let many = members.len() as u32 + u(&c["pool"][i]) as u32;
		let first = n as u32 * 100;
		if many > 0 {
			let call = pallet_communities_manager::Call::create_memberships { amount: many as u16, starting_at: first, price: 0 };
			must("memberships", dispatch(RuntimeCall::CommunitiesManager(call), root()));
		}
		for item in first..first + many {
			let call = pallet_nfts::Call::transfer { collection: 0, item, dest: community(n).into() };
			must("to community", dispatch(RuntimeCall::CommunityMemberships(call), RuntimeOrigin::signed(treasury.clone())));
		}
		for a in members {
			must("member", dispatch(pallet_communities::Call::add_member { who: person(a).into() }, voice(n).into()));
			let m = CommunityMemberships::user_memberships(&person(a), Some(n as u16)).next().expect("harness: membership").1;
			note(&format!("m{n}-{a}"), m);
			for _ in 0..u(&ranks[a as usize - 1]) {
				must("rank", dispatch(raise(n, a), voice(n).into()));
			}
		}
		let _ = dispatch(pallet_assets::Call::<Runtime, KreivoAssetsInstance>::force_create { id: Loc::Here(n as u32), owner: Address::Id(person(200)), is_sufficient: true, min_balance: 1 }, root());
		for a in 1..=people() {
			let amount = u(&c["coin"][i][a as usize - 1]) as Balance;
			if amount > 0 {
				Assets::mint_into(Loc::Here(n as u32), &person(a), amount).unwrap_or_else(|e| panic!("harness: coin {e:?}"));
			}
		}
	}
	note("pot", Balances::total_balance(&treasury));
}

// what a community may decide to do: `n` is an account, a community, a track, a way of deciding or a poll
fn raise(c: u64, n: u64) -> RuntimeCall {
	pallet_communities::Call::promote { membership_id: membership(c, n) }.into()
}
fn lower(c: u64, n: u64) -> RuntimeCall {
	pallet_communities::Call::demote { membership_id: membership(c, n) }.into()
}
fn add(_: u64, n: u64) -> RuntimeCall {
	pallet_communities::Call::add_member { who: person(n).into() }.into()
}
fn meth(c: u64, n: u64) -> RuntimeCall {
	pallet_communities::Call::set_decision_method { community_id: c as u16, decision_method: method(METHODS[n as usize - 1], c) }.into()
}
fn meddle(_: u64, n: u64) -> RuntimeCall {
	pallet_communities::Call::set_decision_method { community_id: n as u16, decision_method: DecisionMethod::Rank }.into()
}
fn spend(_: u64, n: u64) -> RuntimeCall {
	let call: RuntimeCall = pallet_balances::Call::transfer_allow_death { dest: person(n).into(), value: UNITS }.into();
	pallet_communities::Call::dispatch_as_account { call: Box::new(call) }.into()
}
fn rules(c: u64, n: u64) -> RuntimeCall {
	RuntimeCall::CommunityTracks(pallet_referenda_tracks::Call::update { id: c as u16, info: track(&cfg()["rules"][n as usize - 1]) })
}
fn cancel(_: u64, n: u64) -> RuntimeCall {
	RuntimeCall::CommunityReferenda(pallet_referenda::Call::cancel { index: n as u32 - 1 })
}
fn kill(_: u64, n: u64) -> RuntimeCall {
	RuntimeCall::CommunityReferenda(pallet_referenda::Call::kill { index: n as u32 - 1 })
}
fn nothing(_: u64, _: u64) -> RuntimeCall {
	frame_system::Call::remark { remark: vec![] }.into()
}
fn entries(item: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
	let mut p = sp_core::twox_128(b"Communities").to_vec();
	p.extend(sp_core::twox_128(item.as_bytes()));
	sp_core::externalities::snapshot().range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[32..].to_vec(), v.clone())).collect()
}
/// the votes that are kept, by the keys they are kept under: of a poll and a membership
fn votes() -> Vec<(Vec<u8>, (pallet_communities::types::VoteOf<Runtime>, AccountId))> {
	entries("CommunityVotes").into_iter().map(|(k, v)| (k, Decode::decode(&mut &v[..]).expect("harness: vote"))).collect()
}
/// is the poll of a key this one, whatever hasher the key was made with
fn poll_in(k: &[u8], poll: &[u8]) -> bool {
	let rest = k.len() - 4;
	[0, 8, 16].into_iter().any(|at| at + 4 <= rest && k[at..at + 4] == *poll && matches!(rest - at - 4, 0 | 8 | 16))
}
type Deed = (&'static str, fn(u64, u64) -> RuntimeCall, u64);
fn deeds() -> [Deed; 10] {
	let p = people();
	[
		("raise", raise, p),
		("lower", lower, p),
		("add", add, p),
		("meth", meth, 3),
		("meddle", meddle, comms()),
		("spend", spend, p),
		("rules", rules, list(&cfg()["rules"]).len() as u64),
		("cancel", cancel, 60),
		("kill", kill, 60),
		("none", nothing, 1),
	]
}
type Bound = frame_support::traits::Bounded<RuntimeCall, <Runtime as frame_system::Config>::Hashing>;
/// what a decision of community `c` does, as the specification says it
fn named(b: &Bound, c: u64) -> Value {
	let Ok((call, _)) = <Preimage as QueryPreimage>::peek::<RuntimeCall>(b) else { return json!({"k": "lost", "n": 0}) };
	let bytes = call.encode();
	for (k, make, to) in deeds() {
		// the call's place in the runtime first, as most are something else
		if make(c, 1).encode()[..2] == bytes[..2] {
			if let Some(n) = (1..=to).find(|n| make(c, *n).encode() == bytes) {
				return json!({"k": k, "n": n});
			}
		}
	}
	json!({"k": "other", "n": 0})
}
fn voice_of(o: &OriginCaller) -> u64 {
	(1..=comms()).find(|c| voice(*c) == *o).unwrap_or(999)
}
fn poll(i: u32, r: ReferendumInfo<u16, OriginCaller, BlockNumber, Bound, Balance, pallet_communities::types::Tally<Runtime>, AccountId, (BlockNumber, u32)>) -> Value {
	let by = |d: &Option<Deposit<AccountId, Balance>>| d.as_ref().map_or(0, |d| number(&d.who));
	let put = |d: &Option<Deposit<AccountId, Balance>>| d.as_ref().map_or(json!(0), |d| units(d.amount));
	let over = |st: &str, at: BlockNumber, fee: Option<Deposit<AccountId, Balance>>, stake: Option<Deposit<AccountId, Balance>>| {
		json!({"st": st, "t": 0, "for": 0, "do": {"k": "none", "n": 1}, "after": 0, "at": at, "since": 0, "conf": 0, "al": 0, "inq": false,
			"by": by(&fee), "fee": put(&fee), "stake": by(&stake), "put": put(&stake), "votes": [], "ayes": 0, "nays": 0, "bare": 0})
	};
	match r {
		ReferendumInfo::Ongoing(s) => {
			let after = match s.enactment {
				DispatchTime::After(n) => n as i64,
				_ => -1,
			};
			let cast = votes();
			let said = |a: u64| {
				let key = (i, membership(s.track as u64, a)).encode();
				let (vote, _) = cast.iter().find(|(k, _)| k[k.len() - 4..] == key[4..] && poll_in(k, &key[..4]))?.1.clone();
				Some(if vote.say() { vote.weight() as i64 } else { -(vote.weight() as i64) })
			};
			let votes: Vec<i64> = (1..=people()).map(|a| said(a).unwrap_or(0)).collect();
			let (ayes, nays, bare) = <(u32, u32, u32)>::decode(&mut &s.tally.encode()[..]).expect("harness: tally");
			let fee = Some(s.submission_deposit);
			let c = voice_of(&s.origin);
			json!({"st": "open", "t": s.track - 1, "for": c, "do": named(&s.proposal, c), "after": after, "at": s.submitted,
				"since": s.deciding.as_ref().map_or(0, |d| d.since), "conf": s.deciding.as_ref().and_then(|d| d.confirming).unwrap_or(0),
				"al": s.alarm.map_or(0, |a| a.0), "inq": s.in_queue, "by": by(&fee), "fee": put(&fee), "stake": by(&s.decision_deposit), "put": put(&s.decision_deposit),
				"votes": votes, "ayes": ayes, "nays": nays, "bare": bare})
		}
		ReferendumInfo::Approved(at, fee, stake) => over("approved", at, fee, stake),
		ReferendumInfo::Rejected(at, fee, stake) => over("rejected", at, fee, stake),
		ReferendumInfo::TimedOut(at, fee, stake) => over("timedout", at, fee, stake),
		ReferendumInfo::Cancelled(at, fee, stake) => over("cancelled", at, fee, stake),
		ReferendumInfo::Killed(at) => over("killed", at, None, None),
	}
}
fn agenda() -> Vec<(BlockNumber, Vec<Value>)> {
	let mut all: Vec<(BlockNumber, Vec<Value>)> = pallet_scheduler::Agenda::<Runtime>::iter()
		.map(|(at, tasks)| {
			let entry = |t: &pallet_scheduler::ScheduledOf<Runtime>| {
				let Ok((call, _)) = <Preimage as QueryPreimage>::peek::<RuntimeCall>(&t.call) else { return json!({"at": at, "k": "lost"}) };
				match call {
					RuntimeCall::CommunityReferenda(pallet_referenda::Call::nudge_referendum { index }) => json!({"at": at, "k": "look", "n": index + 1}),
					RuntimeCall::CommunityReferenda(pallet_referenda::Call::one_fewer_deciding { track }) => json!({"at": at, "k": "free", "n": track - 1}),
					_ => {
						let c = voice_of(&t.origin);
						json!({"at": at, "k": "do", "for": c, "do": named(&t.call, c)})
					}
				}
			};
			(at, tasks.iter().flatten().map(entry).collect())
		})
		.filter(|(_, tasks): &(_, Vec<Value>)| !tasks.is_empty())
		.collect();
	all.sort_by_key(|a| a.0);
	all
}
fn world() -> Value {
	let each = |f: &dyn Fn(u64) -> Value| (1..=comms()).map(f).collect::<Vec<_>>();
	let everyone = |f: &dyn Fn(u64) -> Value| (1..=people()).map(f).collect::<Vec<_>>();
	let mut polls: Vec<_> = pallet_referenda::ReferendumInfoFor::<Runtime, Polls>::iter().collect();
	polls.sort_by_key(|p| p.0);
	let above = |a: AccountId| units(Balances::free_balance(&a).saturating_sub(ExistentialDeposit::get()));
	let c16 = |c: u64| c as u16;
	let rank = |c: u64, a: u64| {
		let m = membership(c, a);
		let theirs = CommunityMemberships::user_memberships(&person(a), Some(c16(c))).any(|x| x.1 == m);
		if theirs { CommunityMemberships::rank_of(&c16(c), &m).map_or(-2, |r| u32::from(r) as i64) } else { -1 }
	};
	let all_rules = list(&cfg()["rules"]).clone();
	let rule = |c: u64| {
		let t = pallet_referenda_tracks::Tracks::<Runtime, Tracks>::get(c16(c));
		all_rules.iter().position(|r| Some(track(r)).encode() == t.encode()).map_or(0, |p| p + 1)
	};
	let way = |c: u64| {
		let m = entries("CommunityDecisionMethod").into_iter().find(|(k, _)| k.ends_with(&c16(c).encode())).map_or(DecisionMethod::Membership, |(_, v)| Decode::decode(&mut &v[..]).expect("harness: method"));
		METHODS.iter().find(|n| method(n, c) == m).copied().unwrap_or("other")
	};
	json!({
		"blk": System::block_number(),
		"polls": polls.into_iter().map(|(i, r)| poll(i, r)).collect::<Vec<_>>(),
		"q": each(&|c| json!(pallet_referenda::TrackQueue::<Runtime, Polls>::get(c16(c)).iter().map(|(i, v)| json!([i + 1, v])).collect::<Vec<_>>())),
		"ag": agenda().into_iter().flat_map(|a| a.1).collect::<Vec<_>>(),
		"free": everyone(&|a| above(person(a))),
		"held": everyone(&|a| units(Balances::reserved_balance(&person(a)))),
		"pot": units(Balances::total_balance(&Treasury::account_id()) - noted::<Balance>("pot").unwrap_or(0)),
		"kitty": each(&|c| above(community(c))),
		"tot": each(&|c| json!(CommunityMemberships::members_total(&c16(c)))),
		"rk": each(&|c| json!(CommunityMemberships::ranks_total(&c16(c)))),
		"mem": each(&|c| json!(everyone(&|a| json!(CommunityMemberships::user_memberships(&person(a), Some(c16(c))).count())))),
		"r": each(&|c| json!(everyone(&|a| json!(rank(c, a))))),
		"pool": each(&|c| json!(CommunityMemberships::user_memberships(&community(c), Some(0)).count())),
		"meth": each(&|c| json!(way(c))),
		"rule": each(&|c| json!(rule(c))),
	})
}
fn act(k: &Value) -> Result<Value, String> {
	type R = pallet_referenda::Call<Runtime, Polls>;
	let index = || u(&k["i"]) as u32 - 1;
	let by = || RuntimeOrigin::signed(person(u(&k["by"])));
	let call = RuntimeCall::CommunityReferenda;
	let authority = || match s(&k["as"]) {
		"root" => RuntimeOrigin::root(),
		"community" => voice(1).into(),
		"member" => RuntimeOrigin::signed(person(1)),
		"canceller" => governance::pallet_custom_origins::Origin::ReferendumCanceller.into(),
		"killer" => governance::pallet_custom_origins::Origin::ReferendumKiller.into(),
		o => panic!("harness: no authority {o}"),
	};
	match s(&k["op"]) {
		"open" => {
			let c = u(&k["for"]);
			let (_, make, _) = deeds().into_iter().find(|d| d.0 == s(&k["do"]["k"])).unwrap_or_else(|| panic!("harness: no deed {k}"));
			let proposal = Preimage::bound(make(c, u(&k["do"]["n"]))).map_err(|e| format!("harness: bound {e:?}"))?;
			let enactment_moment = DispatchTime::After(u(&k["after"]) as u32);
			dispatch(call(R::submit { proposal_origin: Box::new(voice(c)), proposal, enactment_moment }), by())
		}
		"stake" => dispatch(call(R::place_decision_deposit { index: index() }), by()),
		"vote" => {
			let c = u(&k["c"]);
			let aye = k["aye"] == true;
			let n = u(&k["n"]) as Balance;
			let vote = match s(&k["v"]) {
				"one" => Vote::Standard(aye),
				"coin" => Vote::AssetBalance(aye, Loc::Here(c as u32), n),
				_ => Vote::NativeBalance(aye, n),
			};
			dispatch(pallet_communities::Call::vote { membership_id: membership(c, u(&k["by"])), poll_index: index(), vote }, by())
		}
		"unvote" => dispatch(pallet_communities::Call::remove_vote { membership_id: membership(u(&k["c"]), u(&k["by"])), poll_index: index() }, by()),
		"fee" => dispatch(call(R::refund_submission_deposit { index: index() }), RuntimeOrigin::signed(person(1))),
		"back" => dispatch(call(R::refund_decision_deposit { index: index() }), RuntimeOrigin::signed(person(1))),
		"cancel" => dispatch(call(R::cancel { index: index() }), authority()),
		"kill" => dispatch(call(R::kill { index: index() }), authority()),
		"wait" => {
			// only blocks something was to happen in, and the last
			let end = System::block_number() + u(&k["n"]) as u32;
			while System::block_number() < end {
				let next = agenda().first().map_or(end, |a| a.0.clamp(System::block_number() + 1, end));
				block(next);
			}
			Ok(())
		}
		o => panic!("harness: unknown op {o}"),
	}
	.map(|_| json!({}))
}
