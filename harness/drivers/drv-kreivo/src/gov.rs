//! Communities of the real runtime: who speaks for them, who belongs to them, their tracks and the
//! polls on them. Authorities are numbered as listed in `cfg.who`; communities are those of
//! `cfg.comm` and `cfg.spare` (not registered at first).
use crate::{base::*, Family};
use codec::{Decode, Encode};
use drvlib::{json, Value};
use fc_traits_memberships::Inspect;
use frame_support::traits::{schedule::DispatchTime, EnsureOrigin, StorePreimage};
use kreivo_runtime::{
	communities::{governance::CommunityReferendaInstance as Polls, governance::CommunityTracksInstance as Tracks, memberships::CommunityMembershipsInstance as Nfts},
	*,
};
use pallet_communities::types::DecisionMethod;
use pallet_referenda::{Curve, ReferendumInfo, TrackInfo};
use sp_runtime::Perbill;
use std::cell::RefCell;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
thread_local! {
	static WHO: RefCell<Vec<(Value, OriginCaller)>> = Default::default();
	static COMM: RefCell<Vec<u16>> = Default::default();
}
fn who(v: &Value) -> OriginCaller {
	WHO.with(|w| w.borrow()[u(v) as usize - 1].1.clone())
}
fn num(o: &OriginCaller) -> usize {
	WHO.with(|w| w.borrow().iter().position(|v| &v.1 == o).map_or(0, |p| p + 1))
}
fn signer(v: &Value) -> AccountId {
	WHO.with(|w| account(&w.borrow()[u(v) as usize - 1].0["a"]))
}
fn accounts() -> Vec<(usize, AccountId)> {
	WHO.with(|w| w.borrow().iter().enumerate().filter(|(_, v)| v.0["o"] == "signed").map(|(i, v)| (i + 1, account(&v.0["a"]))).collect())
}
fn comms() -> Vec<u16> {
	COMM.with(|c| c.borrow().clone())
}
fn numbers(v: &Value) -> Vec<u16> {
	list(v).iter().map(|c| u(c) as u16).collect()
}
fn community_account(c: u16) -> AccountId {
	Communities::community_account(&c)
}
fn track(version: u32) -> TrackInfo<Balance, BlockNumber> {
	let curve = || Curve::LinearDecreasing { length: Perbill::from_percent(100), floor: Perbill::from_percent(50), ceil: Perbill::from_percent(100) };
	TrackInfo {
		name: [b't'; 25],
		max_deciding: version,
		decision_deposit: 0,
		prepare_period: 1,
		decision_period: 10,
		confirm_period: 1,
		min_enactment_period: 1,
		min_approval: curve(),
		min_support: curve(),
	}
}
fn start(c: &Value) {
	block(1);
	WHO.with(|w| *w.borrow_mut() = list(&c["who"]).iter().map(|v| (v.clone(), caller(v))).collect());
	let registered = numbers(&c["comm"]);
	COMM.with(|l| *l.borrow_mut() = registered.iter().copied().chain(numbers(&c["spare"])).collect());
	let root = RuntimeOrigin::root;
	let treasury = Treasury::account_id();
	<CommunityMemberships as frame_support::traits::nonfungibles_v2::Create<_, _>>::create_collection_with_id(0, &treasury, &treasury, &Default::default())
		.unwrap_or_else(|e| panic!("harness: collection {e:?}"));
	let admins = list(&c["adm"]).iter().map(signer).collect::<Vec<_>>();
	for (id, admin) in registered.iter().zip(admins) {
		let call = pallet_communities_manager::Call::register {
			community_id: *id,
			name: b"name".to_vec().try_into().expect("name"),
			first_admin: admin.into(),
			maybe_decision_method: None,
			maybe_track_info: Some(track(0)),
		};
		must("community", dispatch(RuntimeCall::CommunitiesManager(call), root()));
	}
	let per = u(&c["pool"]) as u32;
	for (i, id) in comms().into_iter().enumerate() {
		let first = i as u32 * 100;
		let call = pallet_communities_manager::Call::create_memberships { amount: per as u16, starting_at: first, price: 0 };
		must("memberships", dispatch(RuntimeCall::CommunitiesManager(call), root()));
		for item in first..first + per {
			let call = pallet_nfts::Call::transfer { collection: 0, item, dest: community_account(id).into() };
			must("to community", dispatch(RuntimeCall::CommunityMemberships(call), RuntimeOrigin::signed(treasury.clone())));
		}
	}
	for m in list(&c["mem"]) {
		must("member", dispatch(pallet_communities::Call::add_member { who: signer(&m["a"]).into() }, pallet_communities::Origin::<Runtime>::new(u(&m["c"]) as u16).into()));
	}
}
fn entries(item: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
	let mut p = sp_core::twox_128(b"Communities").to_vec();
	p.extend(sp_core::twox_128(item.as_bytes()));
	sp_core::externalities::snapshot().range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[32..].to_vec(), v.clone())).collect()
}
fn world() -> Value {
	let last2 = |k: &[u8]| u16::decode(&mut &k[k.len() - 2..]).expect("harness: id");
	let mut comm: Vec<u16> = entries("Info").iter().map(|(k, _)| last2(k)).collect();
	comm.sort();
	let mut adm: Vec<(usize, u16)> = entries("CommunityIdFor")
		.into_iter()
		.map(|(k, v)| {
			let o = WHO.with(|w| w.borrow().iter().position(|o| k.ends_with(&o.1.encode()) && k.len() - o.1.encode().len() <= 16));
			(o.map_or(0, |o| o + 1), u16::decode(&mut &v[..]).expect("harness: id"))
		})
		.collect();
	adm.sort();
	let mut meth: Vec<(u16, &str)> = entries("CommunityDecisionMethod")
		.into_iter()
		.map(|(k, v)| (last2(&k), ["membership", "native", "asset", "rank"][v[0] as usize]))
		.collect();
	meth.sort();
	let mut mem = vec![];
	let mut pool = vec![];
	// collection 0 is where memberships come from, not a community's
	for c in comms().into_iter().filter(|c| *c != 0) {
		for (i, a) in accounts() {
			let n = CommunityMemberships::user_memberships(&a, Some(c)).count();
			if n > 0 {
				mem.push(json!({"c": c, "a": i, "n": n}));
			}
		}
		pool.push(json!({"c": c, "n": CommunityMemberships::user_memberships(&community_account(c), Some(0)).count()}));
	}
	let mut tracks: Vec<(u16, u32)> = pallet_referenda_tracks::Tracks::<Runtime, Tracks>::iter().map(|(t, i)| (t, i.max_deciding)).collect();
	tracks.sort();
	let mut gov: Vec<(usize, u16)> = pallet_referenda_tracks::OriginToTrackId::<Runtime, Tracks>::iter().map(|(o, t)| (num(&o), t)).collect();
	gov.sort();
	let mut polls: Vec<_> = pallet_referenda::ReferendumInfoFor::<Runtime, Polls>::iter()
		.map(|(i, r)| match r {
			ReferendumInfo::Ongoing(s) => (i, s.track, num(&s.origin), "open"),
			ReferendumInfo::Cancelled(..) => (i, 0, 0, "cancelled"),
			ReferendumInfo::Killed(..) => (i, 0, 0, "killed"),
			_ => (i, 0, 0, "over"),
		})
		.collect();
	polls.sort();
	json!({
		"comm": comm,
		"adm": adm.iter().map(|(o, c)| json!({"o": o, "c": c})).collect::<Vec<_>>(),
		"meth": meth.iter().map(|(c, m)| json!({"c": c, "m": m})).collect::<Vec<_>>(),
		"mem": mem,
		"pool": pool,
		"tracks": tracks.iter().map(|(t, v)| json!({"t": t, "v": v})).collect::<Vec<_>>(),
		"gov": gov.iter().map(|(o, t)| json!({"o": o, "t": t})).collect::<Vec<_>>(),
		"polls": polls.iter().map(|(_, t, o, st)| json!({"t": t, "o": o, "st": st})).collect::<Vec<_>>(),
	})
}
fn act(k: &Value) -> Result<Value, String> {
	type C = pallet_communities::Call<Runtime>;
	type T = pallet_referenda_tracks::Call<Runtime, Tracks>;
	type P = pallet_referenda::Call<Runtime, Polls>;
	let by = || -> RuntimeOrigin { who(&k["by"]).into() };
	let c = || u(&k["c"]) as u16;
	let t = || u(&k["t"]) as u16;
	match s(&k["op"]) {
		"say" => {
			let call: RuntimeCall = frame_system::Call::remark_with_event { remark: vec![1] }.into();
			dispatch(C::dispatch_as_account { call: Box::new(call) }, by())?;
			let said = System::events().into_iter().filter_map(|e| match e.event {
				RuntimeEvent::System(frame_system::Event::Remarked { sender, .. }) => Some(show(&sender)),
				_ => None,
			});
			return Ok(json!({"as": said.collect::<Vec<_>>()}));
		}
		// as whom payments are made
		"pay" => {
			return <Runtime as pallet_payments::Config>::SenderOrigin::try_origin(by())
				.map(|a| json!({"as": [show(&a)]}))
				.map_err(|_| "none".into())
		}
		"meth" => {
			let decision_method = match s(&k["m"]) {
				"membership" => DecisionMethod::Membership,
				"native" => DecisionMethod::NativeToken,
				_ => DecisionMethod::Rank,
			};
			dispatch(C::set_decision_method { community_id: c(), decision_method }, by())?
		}
		"add" => dispatch(C::add_member { who: signer(&k["a"]).into() }, by())?,
		// some membership that the account holds in that community
		"drop" => {
			let m = CommunityMemberships::user_memberships(&signer(&k["a"]), Some(c())).next().map_or(9999, |(_, m)| m);
			dispatch(C::remove_member { who: signer(&k["a"]).into(), membership_id: m }, by())?
		}
		"admin" => dispatch(C::set_admin_origin { admin_origin: who(&k["to"]) }, by())?,
		"open" => {
			let call: RuntimeCall = frame_system::Call::remark { remark: vec![1] }.into();
			let proposal = Preimage::bound(call).map_err(|e| format!("{e:?}"))?;
			dispatch(RuntimeCall::CommunityReferenda(P::submit { proposal_origin: Box::new(who(&k["for"])), proposal, enactment_moment: DispatchTime::After(1) }), by())?
		}
		"cancel" => dispatch(RuntimeCall::CommunityReferenda(P::cancel { index: u(&k["i"]) as u32 - 1 }), by())?,
		"kill" => dispatch(RuntimeCall::CommunityReferenda(P::kill { index: u(&k["i"]) as u32 - 1 }), by())?,
		"ins" => dispatch(RuntimeCall::CommunityTracks(T::insert { id: t(), info: track(0), pallet_origin: who(&k["for"]) }), by())?,
		"upd" => dispatch(RuntimeCall::CommunityTracks(T::update { id: t(), info: track(u(&k["v"]) as u32) }), by())?,
		"del" => dispatch(RuntimeCall::CommunityTracks(T::remove { id: t() }), by())?,
		op => panic!("harness: unknown operation {op}"),
	}
	Ok(json!({}))
}
