//! Who is heard with which call, and what comes of some of the privileged ones: code and contracts,
//! assets, collators' bond, memberships, accounts and communities founded and what that costs.
use crate::{base::*, Family};
use codec::{Decode, Encode};
use drvlib::{json, Value};
use frame_support::{traits::Currency, weights::Weight};
use kreivo_runtime::{collective::KreivoCollectiveInstance as Seats, communities::memberships::CommunityMembershipsInstance as Nfts, *};
use std::cell::RefCell;
use virto_common::FungibleAssetLocation as Loc;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
const RICH: Balance = 1 << 50;
thread_local! { static PURSE: RefCell<Vec<AccountId>> = Default::default(); }
fn purses() -> Vec<AccountId> {
	PURSE.with(|p| p.borrow().clone())
}
fn treasury() -> AccountId {
	Treasury::account_id()
}
fn start(c: &Value) {
	block(1);
	block(2);
	PURSE.with(|p| *p.borrow_mut() = list(&c["purse"]).iter().map(account).collect());
	for who in purses().into_iter().chain([treasury()]) {
		must("balance", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id(who), new_free: RICH }, RuntimeOrigin::root()));
	}
	<CommunityMemberships as frame_support::traits::nonfungibles_v2::Create<_, _>>::create_collection_with_id(0, &treasury(), &treasury(), &Default::default())
		.unwrap_or_else(|e| panic!("harness: collection {e:?}"));
	note("bond", pallet_collator_selection::CandidacyBond::<Runtime>::get());
}
fn code(n: u64) -> Vec<u8> {
	vec![n as u8; 3]
}
fn code_hash(n: u64) -> sp_core::H256 {
	sp_core::H256(sp_io::hashing::blake2_256(&code(n)))
}
fn world() -> Value {
	let code_num = |h: &sp_core::H256| (1..=9).find(|n| code_hash(*n) == *h).unwrap_or(0);
	let mut codes: Vec<_> = pallet_contracts::Codes::<Runtime>::iter().map(|(h, by)| (code_num(&h), by)).collect();
	codes.sort();
	let made: Vec<_> = pallet_contracts::Contracts::<Runtime>::iter().map(|(_, h)| code_num(&h)).collect();
	let contracts: Vec<_> = (1..=9).map(|n| made.iter().filter(|m| **m == n).count()).collect();
	let assets: Vec<_> = (1..=9u32).filter(|n| <Assets as frame_support::traits::fungibles::Inspect<AccountId>>::asset_exists(Loc::Here(*n))).collect();
	let mut users: Vec<_> = pallet_pass::Accounts::<Runtime>::iter().map(|(_, u)| u[0]).collect();
	users.sort();
	let mut seats: Vec<_> = pallet_ranked_collective::Members::<Runtime, Seats>::iter()
		.map(|(a, r)| ((0..=99).find(|c| Communities::community_account(c) == a).unwrap_or(u16::MAX), r))
		.collect();
	seats.sort();
	let mut items: Vec<u32> = pallet_nfts::Item::<Runtime, Nfts>::iter().filter(|(c, _, _)| *c == 0).map(|(_, i, _)| i).collect();
	items.sort();
	let spent = |a: &AccountId| RICH.saturating_sub(Balances::total_balance(a));
	json!({
		"codes": codes.iter().map(|(n, by)| json!({"n": n, "by": show(by)})).collect::<Vec<_>>(),
		"contracts": contracts,
		"assets": assets,
		"bond": (pallet_collator_selection::CandidacyBond::<Runtime>::get() - noted::<u128>("bond").unwrap_or(0)) as u64,
		"users": users,
		"seats": seats.iter().map(|(c, r)| json!({"c": c, "r": r})).collect::<Vec<_>>(),
		"comms": (0..=99u16).filter(|c| Communities::community_exists(c)).collect::<Vec<_>>(),
		"items": items,
		"spent": purses().iter().map(|a| wide(spent(a))).collect::<Vec<_>>(),
		"got": wide(Balances::total_balance(&treasury()).saturating_sub(RICH)),
	})
}
fn act(k: &Value) -> Result<Value, String> {
	let by = || origin(&k["by"]);
	let n = || u(&k["n"]);
	let seat = || Address::Id(Communities::community_account(&(n() as u16)));
	let costs = json!({"ed": wide(ExistentialDeposit::get()), "unit": wide(UNITS)});
	let call: RuntimeCall = match s(&k["op"]) {
		"list" => return Ok(json!({"calls": crate::calls::table().keys().map(|(p, f)| json!([p, f])).collect::<Vec<_>>()})),
		"ask" => {
			let name = (s(&k["do"]["p"]).to_string(), s(&k["do"]["f"]).to_string());
			let bytes = crate::calls::table().get(&name).cloned().unwrap_or_else(|| panic!("harness: no call {name:?}"));
			let r = dispatch(RuntimeCall::decode(&mut &bytes[..]).expect("harness: decodes"), by());
			let got = match r {
				Ok(_) => "done",
				Err(e) if e == "BadOrigin" => "barred",
				Err(_) => "refused",
			};
			return Ok(json!({"got": got}));
		}
		"upload" => pallet_contracts::Call::upload_code { code: code(n()), storage_deposit_limit: None, determinism: 0 }.into(),
		"deploy" => pallet_contracts::Call::instantiate {
			value: 0,
			gas_limit: Weight::from_parts(1_000_000, 1_000),
			storage_deposit_limit: None,
			code_hash: code_hash(n()),
			data: vec![],
			// never the same contract again
			salt: pallet_contracts::Contracts::<Runtime>::iter().count().to_le_bytes().to_vec(),
		}
		.into(),
		"asset" => RuntimeCall::Assets(pallet_assets::Call::force_create { id: Loc::Here(n() as u32), owner: Address::Id([1; 32].into()), is_sufficient: true, min_balance: 1 }),
		"own asset" => RuntimeCall::Assets(pallet_assets::Call::create { id: Loc::Here(n() as u32), admin: Address::Id([1; 32].into()), min_balance: 1 }),
		"bond" => pallet_collator_selection::Call::set_candidacy_bond { bond: pallet_collator_selection::CandidacyBond::<Runtime>::get() + 1 }.into(),
		"mint" => RuntimeCall::CommunitiesManager(pallet_communities_manager::Call::create_memberships { amount: 1, starting_at: n() as u32, price: 0 }),
		"raise" => RuntimeCall::KreivoCollective(pallet_ranked_collective::Call::promote_member { who: seat() }),
		"lower" => RuntimeCall::KreivoCollective(pallet_ranked_collective::Call::demote_member { who: seat() }),
		"seat" => RuntimeCall::KreivoCollective(pallet_ranked_collective::Call::add_member { who: seat() }),
		"found" => RuntimeCall::CommunitiesManager(pallet_communities_manager::Call::register {
			community_id: n() as u16,
			name: b"name".to_vec().try_into().expect("name"),
			first_admin: Address::Id([n() as u8 + 100; 32].into()),
			maybe_decision_method: None,
			maybe_track_info: None,
		}),
		"join" => {
			type Id = <Runtime as pallet_pass::Config>::PalletId;
			let a = pass_webauthn::Attestation {
				authority: <fc_traits_authn::util::AuthorityFromPalletId<Id> as frame_support::traits::Get<_>>::get(),
				device: [n() as u8; 32],
				context: 1u32,
				challenge: hash_of(1).0.to_vec(),
			};
			let attestation = Decode::decode(&mut &(0u8, a).encode()[..]).expect("harness: kind of device");
			pallet_pass::Call::register { user: [n() as u8; 32], attestation }.into()
		}
		o => panic!("harness: unknown op {o}"),
	};
	dispatch(call, by()).map(|_| costs)
}
