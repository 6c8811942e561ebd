//! The collective of the communities: motions, their votes, stakes and what comes of them.
use crate::{base::*, Family};
use codec::{Decode, Encode};
use drvlib::{json, Value};
use frame_support::traits::{schedule::DispatchTime, Currency, QueryPreimage, ReservableCurrency, StorePreimage};
use governance::pallet_custom_origins::Origin as Powers;
use kreivo_runtime::{collective::governance::KreivoReferendaInstance as Polls, collective::KreivoCollectiveInstance as Seats, communities::memberships::CommunityMembershipsInstance as Nfts, *};
use pallet_referenda::{Deposit, ReferendumInfo};
use std::cell::RefCell;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
thread_local! { static SIZE: RefCell<(u16, u8)> = Default::default(); }
/// how many seats and payers there are
fn size() -> (u16, u8) {
	SIZE.with(|s| *s.borrow())
}
fn seat(n: u64) -> AccountId {
	Communities::community_account(&(n as u16))
}
fn payer(n: u64) -> AccountId {
	[n as u8; 32].into()
}
fn number(a: &AccountId) -> u64 {
	(1..=size().1 as u64).find(|n| payer(*n) == *a).unwrap_or(999)
}
fn units(b: Balance) -> Value {
	if b % UNITS == 0 { json!((b / UNITS) as u64) } else { json!(-1) }
}
fn start(c: &Value) {
	block(1);
	let root = RuntimeOrigin::root;
	let give = |who: AccountId, new_free| must("balance", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id(who), new_free }, root()));
	SIZE.with(|s| *s.borrow_mut() = (list(&c["rank"]).len() as u16, list(&c["purse"]).len() as u8));
	for (i, n) in list(&c["purse"]).iter().enumerate() {
		give(payer(i as u64 + 1), u(n) as Balance * UNITS + ExistentialDeposit::get());
	}
	let treasury = Treasury::account_id();
	give(treasury.clone(), UNITS);
	<CommunityMemberships as frame_support::traits::nonfungibles_v2::Create<_, _>>::create_collection_with_id(0, &treasury, &treasury, &Default::default())
		.unwrap_or_else(|e| panic!("harness: collection {e:?}"));
	for (i, r) in list(&c["rank"]).iter().enumerate() {
		let n = i as u64 + 1;
		let call = pallet_communities_manager::Call::register {
			community_id: n as u16,
			name: b"name".to_vec().try_into().expect("name"),
			first_admin: Address::Id([n as u8 + 100; 32].into()),
			maybe_decision_method: None,
			maybe_track_info: None,
		};
		must("community", dispatch(RuntimeCall::CommunitiesManager(call), root()));
		for _ in 0..u(r) {
			must("rank", dispatch(raise(n), root()));
		}
	}
	note("pot", Balances::total_balance(&treasury));
}
fn raise(n: u64) -> RuntimeCall {
	RuntimeCall::KreivoCollective(pallet_ranked_collective::Call::promote_member { who: seat(n).into() })
}
fn lower(n: u64) -> RuntimeCall {
	RuntimeCall::KreivoCollective(pallet_ranked_collective::Call::demote_member { who: seat(n).into() })
}
fn mint(n: u64) -> RuntimeCall {
	RuntimeCall::CommunitiesManager(pallet_communities_manager::Call::create_memberships { amount: 1, starting_at: n as u32, price: 0 })
}
fn cancel(n: u64) -> RuntimeCall {
	RuntimeCall::KreivoReferenda(pallet_referenda::Call::cancel { index: n as u32 - 1 })
}
fn kill(n: u64) -> RuntimeCall {
	RuntimeCall::KreivoReferenda(pallet_referenda::Call::kill { index: n as u32 - 1 })
}
fn nothing(_: u64) -> RuntimeCall {
	frame_system::Call::remark { remark: vec![] }.into()
}
const DEEDS: [(&str, fn(u64) -> RuntimeCall, u64, u64); 6] =
	[("none", nothing, 0, 0), ("raise", raise, 1, 9), ("lower", lower, 1, 9), ("mint", mint, 1, 50), ("cancel", cancel, 1, 50), ("kill", kill, 1, 50)];
fn deed(v: &Value) -> RuntimeCall {
	let (_, make, ..) = DEEDS.iter().find(|d| d.0 == s(&v["k"])).unwrap_or_else(|| panic!("harness: no deed {v}"));
	make(u(&v["n"]))
}
type Bound = frame_support::traits::Bounded<RuntimeCall, <Runtime as frame_system::Config>::Hashing>;
/// what a decision does, as the specification says it
fn named(b: &Bound) -> Value {
	let Ok((call, _)) = <Preimage as QueryPreimage>::peek::<RuntimeCall>(b) else { return json!({"k": "lost", "n": 0}) };
	for (k, make, from, to) in DEEDS {
		if let Some(n) = (from..=to).find(|n| make(*n) == call) {
			return json!({"k": k, "n": n});
		}
	}
	json!({"k": "other", "n": 0})
}
fn power(name: &str) -> OriginCaller {
	match name {
		"root" => RuntimeOrigin::root().caller,
		"memberships" => Powers::CreateMemberships.into(),
		"canceller" => Powers::ReferendumCanceller.into(),
		"killer" => Powers::ReferendumKiller.into(),
		"signed" => RuntimeOrigin::signed(payer(1)).caller,
		"none" => RuntimeOrigin::none().caller,
		"community" => pallet_communities::Origin::<Runtime>::new(1).into(),
		_ => panic!("harness: no power {name}"),
	}
}
fn power_name(o: &OriginCaller) -> &'static str {
	["root", "memberships", "canceller", "killer", "signed", "none", "community"].into_iter().find(|n| power(n) == *o).unwrap_or("other")
}
fn motion(i: u32, r: ReferendumInfo<u16, OriginCaller, BlockNumber, Bound, Balance, pallet_ranked_collective::TallyOf<Runtime, Seats>, AccountId, (BlockNumber, u32)>) -> Value {
	let by = |d: &Option<Deposit<AccountId, Balance>>| d.as_ref().map_or(0, |d| number(&d.who));
	let put = |d: &Option<Deposit<AccountId, Balance>>| d.as_ref().map_or(json!(0), |d| units(d.amount));
	let over = |st: &str, at: BlockNumber, fee: Option<Deposit<AccountId, Balance>>, stake: Option<Deposit<AccountId, Balance>>| {
		json!({"st": st, "t": 0, "for": "", "do": {"k": "none", "n": 0}, "after": 0, "at": at, "since": 0, "conf": 0, "al": 0, "inq": false,
			"by": by(&fee), "fee": put(&fee), "stake": by(&stake), "put": put(&stake), "votes": [], "ayes": 0, "nays": 0, "bare": 0})
	};
	match r {
		ReferendumInfo::Ongoing(s) => {
			let after = match s.enactment {
				DispatchTime::After(n) => n as i64,
				_ => -1,
			};
			let votes: Vec<i64> = (1..=size().0)
				.map(|n| pallet_ranked_collective::Voting::<Runtime, Seats>::get(i, seat(n as u64)).map_or(0, |(aye, v)| if aye { v as i64 } else { -(v as i64) }))
				.collect();
			let (bare, ayes, nays) = <(u32, u32, u32)>::decode(&mut &s.tally.encode()[..]).expect("harness: tally");
			let fee = Some(s.submission_deposit);
			json!({"st": "open", "t": s.track, "for": power_name(&s.origin), "do": named(&s.proposal), "after": after, "at": s.submitted,
				"since": s.deciding.as_ref().map_or(0, |d| d.since), "conf": s.deciding.as_ref().and_then(|d| d.confirming).unwrap_or(0),
				"al": s.alarm.map_or(0, |a| a.0), "inq": s.in_queue, "by": by(&fee), "fee": put(&fee), "stake": by(&s.decision_deposit), "put": put(&s.decision_deposit),
				"votes": votes, "ayes": ayes, "nays": nays, "bare": bare})
		}
		ReferendumInfo::Approved(at, fee, stake) => over("approved", at, fee, stake),
		ReferendumInfo::Rejected(at, fee, stake) => over("rejected", at, fee, stake),
		ReferendumInfo::TimedOut(at, fee, stake) => over("timedout", at, fee, stake),
		ReferendumInfo::Cancelled(at, fee, stake) => over("cancelled", at, fee, stake),
		ReferendumInfo::Killed(at) => over("killed", at, None, None),
	}
}
fn agenda() -> Vec<(BlockNumber, Vec<Value>)> {
	let mut all: Vec<(BlockNumber, Vec<Value>)> = pallet_scheduler::Agenda::<Runtime>::iter()
		.map(|(at, tasks)| {
			let entry = |t: &pallet_scheduler::ScheduledOf<Runtime>| {
				let Ok((call, _)) = <Preimage as QueryPreimage>::peek::<RuntimeCall>(&t.call) else { return json!({"at": at, "k": "lost"}) };
				match call {
					RuntimeCall::KreivoReferenda(pallet_referenda::Call::nudge_referendum { index }) => json!({"at": at, "k": "look", "n": index + 1}),
					RuntimeCall::KreivoReferenda(pallet_referenda::Call::one_fewer_deciding { track }) => json!({"at": at, "k": "free", "n": track}),
					_ => json!({"at": at, "k": "do", "for": power_name(&t.origin), "do": named(&t.call)}),
				}
			};
			(at, tasks.iter().flatten().map(entry).collect())
		})
		.filter(|(_, tasks): &(_, Vec<Value>)| !tasks.is_empty())
		.collect();
	all.sort_by_key(|a| a.0);
	all
}
fn world() -> Value {
	let (seats, payers) = size();
	let mut polls: Vec<_> = pallet_referenda::ReferendumInfoFor::<Runtime, Polls>::iter().collect();
	polls.sort_by_key(|p| p.0);
	let mut items: Vec<u32> = pallet_nfts::Item::<Runtime, Nfts>::iter().filter(|(c, _, _)| *c == 0).map(|(_, i, _)| i).collect();
	items.sort();
	let money = |n: u8| payer(n as u64);
	json!({
		"blk": System::block_number(),
		"polls": polls.into_iter().map(|(i, r)| motion(i, r)).collect::<Vec<_>>(),
		"q": (0..4u16).map(|t| pallet_referenda::TrackQueue::<Runtime, Polls>::get(t).iter().map(|(i, v)| json!([i + 1, v])).collect::<Vec<_>>()).collect::<Vec<_>>(),
		"ag": agenda().into_iter().flat_map(|a| a.1).collect::<Vec<_>>(),
		"free": (1..=payers).map(|n| units(Balances::free_balance(&money(n)).saturating_sub(ExistentialDeposit::get()))).collect::<Vec<_>>(),
		"held": (1..=payers).map(|n| units(Balances::reserved_balance(&money(n)))).collect::<Vec<_>>(),
		"pot": units(Balances::total_balance(&Treasury::account_id()) - noted::<Balance>("pot").unwrap_or(0)),
		"rank": (1..=seats).map(|n| pallet_ranked_collective::Members::<Runtime, Seats>::get(seat(n as u64)).map_or(-1, |r| r as i64)).collect::<Vec<_>>(),
		"items": items,
	})
}
fn act(k: &Value) -> Result<Value, String> {
	let poll = || u(&k["i"]) as u32 - 1;
	let by = || RuntimeOrigin::signed(payer(u(&k["by"])));
	let call = |c: pallet_referenda::Call<Runtime, Polls>| RuntimeCall::KreivoReferenda(c);
	let vote = || RuntimeCall::KreivoCollective(pallet_ranked_collective::Call::vote { poll: poll(), aye: k["aye"] == true });
	match s(&k["op"]) {
		"open" => {
			let proposal = Preimage::bound(deed(&k["do"])).map_err(|e| format!("harness: bound {e:?}"))?;
			let enactment_moment = DispatchTime::After(u(&k["after"]) as u32);
			dispatch(call(pallet_referenda::Call::submit { proposal_origin: Box::new(power(s(&k["for"]))), proposal, enactment_moment }), by())
		}
		"stake" => dispatch(call(pallet_referenda::Call::place_decision_deposit { index: poll() }), by()),
		"vote" => dispatch(vote(), RuntimeOrigin::signed(seat(u(&k["by"])))),
		"stranger" => dispatch(vote(), RuntimeOrigin::signed(payer(1))),
		"fee" => dispatch(call(pallet_referenda::Call::refund_submission_deposit { index: poll() }), RuntimeOrigin::signed(payer(1))),
		"back" => dispatch(call(pallet_referenda::Call::refund_decision_deposit { index: poll() }), RuntimeOrigin::signed(payer(1))),
		"wait" => {
			// only blocks something was to happen in, and the last
			let end = System::block_number() + u(&k["n"]) as u32;
			while System::block_number() < end {
				let next = agenda().first().map_or(end, |a| a.0.clamp(System::block_number() + 1, end));
				block(next);
			}
			Ok(())
		}
		o => panic!("harness: unknown op {o}"),
	}
	.map(|_| json!({}))
}
