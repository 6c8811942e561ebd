//! Calls made on behalf of someone else: through proxies of every type and out of contracts.
//! Accounts are numbered; 4 is a contract, 9 only receives. A call is named by its pallet and
//! function; those listed in `real` have arguments that do something, all others are zeros.
use crate::{base::*, Family};
use codec::{Decode, Encode};
use drvlib::{json, Value};
use frame_support::{
	traits::{Contains, Currency, EnsureOrigin, GetCallMetadata, InstanceFilter},
	weights::Weight,
};
use kreivo_runtime::*;
use sp_runtime::{DispatchError, MultiAddress};
use std::{cell::RefCell, collections::BTreeMap};
use virto_common::FungibleAssetLocation as Loc;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
const UNIT: Balance = 1_000_000_000_000;
const RICH: Balance = 100;
const TYPES: [(&str, ProxyType); 7] = [
	("Any", ProxyType::Any),
	("NonTransfer", ProxyType::NonTransfer),
	("CancelProxy", ProxyType::CancelProxy),
	("Assets", ProxyType::Assets),
	("AssetOwner", ProxyType::AssetOwner),
	("AssetManager", ProxyType::AssetManager),
	("Collator", ProxyType::Collator),
];

pub type Table = BTreeMap<(String, String), Vec<u8>>;
thread_local! {
	static TABLE: RefCell<Option<Table>> = Default::default();
	static CONTRACT: RefCell<Option<AccountId>> = Default::default();
}
/// All calls of the runtime, found by decoding.
pub fn table() -> Table {
	TABLE.with(|t| t.borrow_mut().get_or_insert_with(find_calls).clone())
}
fn find_calls() -> Table {
	let mut found = Table::new();
	let mut bytes = vec![0; 800];
	for p in 0..=255u8 {
		let mut any = false;
		for f in 0..64u8 {
			// most arguments can be zeros; versioned cross-chain ones start with a 4
			for tail in 0..1024u32 {
				(bytes[0], bytes[1]) = (p, f);
				(0..10).for_each(|i| bytes[2 + i] = if tail >> i & 1 == 1 { 4 } else { 0 });
				let whole = bytes.len();
				let mut rest = &bytes[..];
				if let Ok(call) = RuntimeCall::decode(&mut rest) {
					let m = call.get_call_metadata();
					found.insert((m.pallet_name.to_string(), m.function_name.to_string()), bytes[..whole - rest.len()].to_vec());
					any = true;
					break;
				}
				if tail == 0 && !any && f > 10 {
					break;
				}
			}
		}
	}
	found
}

fn acct(n: u64) -> AccountId {
	if n == 4 { CONTRACT.with(|c| c.borrow().clone().expect("harness: contract")) } else { AccountId::from([n as u8; 32]) }
}
fn num(a: &AccountId) -> u64 {
	(1..=9).find(|n| &acct(*n) == a).unwrap_or(0)
}
fn to(n: u64) -> Address {
	MultiAddress::Id(acct(n))
}
fn kind(v: &Value) -> ProxyType {
	TYPES.iter().find(|t| t.0 == s(v)).unwrap_or_else(|| panic!("harness: no type {v}")).1
}
fn kind_name(k: &ProxyType) -> &'static str {
	TYPES.iter().find(|t| &t.1 == k).map_or("other", |t| t.0)
}
/// The call named by `d`.
fn call(d: &Value) -> RuntimeCall {
	let (p, f) = (s(&d["p"]), s(&d["f"]));
	let asset = Loc::Here(1);
	if d["real"] == true {
		match (p, f) {
			("Balances", "transfer_allow_death") => return pallet_balances::Call::transfer_allow_death { dest: to(9), value: UNIT }.into(),
			("Balances", "transfer_keep_alive") => return pallet_balances::Call::transfer_keep_alive { dest: to(9), value: UNIT }.into(),
			("Balances", "burn") => return pallet_balances::Call::burn { value: UNIT, keep_alive: true }.into(),
			("Assets", "transfer") => return RuntimeCall::Assets(pallet_assets::Call::transfer { id: asset, target: to(9), amount: UNIT }),
			("Assets", "transfer_keep_alive") => return RuntimeCall::Assets(pallet_assets::Call::transfer_keep_alive { id: asset, target: to(9), amount: UNIT }),
			("Assets", "mint") => return RuntimeCall::Assets(pallet_assets::Call::mint { id: asset, beneficiary: to(1), amount: UNIT }),
			("Assets", "burn") => return RuntimeCall::Assets(pallet_assets::Call::burn { id: asset, who: to(1), amount: UNIT }),
			("Proxy", "add_proxy") => return pallet_proxy::Call::add_proxy { delegate: to(u(&d["d"])), proxy_type: kind(&d["ty"]), delay: 0 }.into(),
			("Proxy", "remove_proxy") => return pallet_proxy::Call::remove_proxy { delegate: to(u(&d["d"])), proxy_type: kind(&d["ty"]), delay: 0 }.into(),
			_ => panic!("harness: {p}.{f} has no arguments here"),
		}
	}
	let bytes = table().get(&(p.into(), f.into())).cloned().unwrap_or_else(|| panic!("harness: no call {p}.{f}"));
	RuntimeCall::decode(&mut &bytes[..]).expect("harness: decodes")
}
fn wrapped(how: &Value, c: RuntimeCall) -> RuntimeCall {
	use pallet_utility::Call as U;
	match s(how) {
		"" => c,
		"batch" => U::batch { calls: vec![c] }.into(),
		"all" => U::batch_all { calls: vec![c] }.into(),
		"force" => U::force_batch { calls: vec![c] }.into(),
		"deriv" => U::as_derivative { index: 0, call: Box::new(c) }.into(),
		"deep" => U::batch_all { calls: vec![U::batch { calls: vec![c] }.into()] }.into(),
		h => panic!("harness: no wrapping {h}"),
	}
}

fn start(c: &Value) {
	block(1);
	CONTRACT.with(|k| *k.borrow_mut() = None);
	let root = RuntimeOrigin::root;
	let set = |who: AccountId| {
		must("balance", dispatch(pallet_balances::Call::force_set_balance { who: MultiAddress::Id(who), new_free: RICH * UNIT }, root()))
	};
	let code = vec![1u8];
	set(<Runtime as pallet_contracts::Config>::UploadOrigin::ensure_origin(root()).expect("harness: root uploads"));
	must("upload", dispatch(pallet_contracts::Call::upload_code { code: code.clone(), storage_deposit_limit: None, determinism: 0 }, root()));
	must(
		"instantiate",
		dispatch(
			pallet_contracts::Call::instantiate {
				value: UNIT,
				gas_limit: Weight::from_parts(1_000_000, 1_000),
				storage_deposit_limit: None,
				code_hash: sp_core::H256(sp_io::hashing::blake2_256(&code)),
				data: vec![],
				salt: vec![],
			},
			root(),
		),
	);
	CONTRACT.with(|k| *k.borrow_mut() = pallet_contracts::Contracts::<Runtime>::iter().next().map(|(a, _)| a));
	for n in [1, 2, 3, 4, 9] {
		set(acct(n));
	}
	must("asset", dispatch(RuntimeCall::Assets(pallet_assets::Call::force_create { id: Loc::Here(1), owner: to(1), is_sufficient: true, min_balance: 1 }), root()));
	for n in [1, 2, 3, 4, 9] {
		must("assets", dispatch(RuntimeCall::Assets(pallet_assets::Call::mint { id: Loc::Here(1), beneficiary: to(n), amount: RICH * UNIT }), RuntimeOrigin::signed(acct(1))));
	}
	for p in list(&c["prox"]) {
		must(
			"proxy",
			dispatch(pallet_proxy::Call::add_proxy { delegate: to(u(&p["d"])), proxy_type: kind(&p["ty"]), delay: 0 }, RuntimeOrigin::signed(acct(u(&p["of"])))),
		);
	}
}

fn world() -> Value {
	let units = |b: Balance| if b % UNIT == 0 { (b / UNIT) as i64 } else { -1 };
	let of = |n: u64| Balances::total_balance(&acct(n));
	let mut prox = vec![];
	for n in 1..=3u64 {
		for p in pallet_proxy::Proxies::<Runtime>::get(acct(n)) {
			prox.push(json!({"of": n, "d": num(&p.delegate), "ty": kind_name(&p.proxy_type)}));
		}
	}
	let nat: Vec<_> = (1..=4).map(|n| units(of(n))).collect();
	let ast: Vec<_> = (1..=4).map(|n| units(Assets::balance(Loc::Here(1), acct(n)))).collect();
	json!({"prox": prox, "nat": nat, "ast": ast})
}

/// What became of the innermost call, from what was announced.
fn got() -> &'static str {
	let failed = |e: &DispatchError| if *e == frame_system::Error::<Runtime>::CallFiltered.into() { "filtered" } else { "failed" };
	let mut got = "ok";
	for e in System::events() {
		let r = match &e.event {
			RuntimeEvent::Proxy(pallet_proxy::Event::ProxyExecuted { result }) => *result,
			RuntimeEvent::Utility(pallet_utility::Event::BatchInterrupted { error, .. }) => Err(*error),
			RuntimeEvent::Utility(pallet_utility::Event::ItemFailed { error }) => Err(*error),
			_ => Ok(()),
		};
		if let Err(e) = r {
			got = failed(&e)
		}
	}
	got
}

fn act(k: &Value) -> Result<Value, String> {
	match s(&k["op"]) {
		"list" => Ok(json!({"calls": table().keys().map(|(p, f)| json!([p, f])).collect::<Vec<_>>()})),
		"may" => Ok(json!({"may": InstanceFilter::filter(&kind(&k["ty"]), &wrapped(&k["in"], call(&k["do"])))})),
		"above" => Ok(json!({"may": InstanceFilter::<RuntimeCall>::is_superset(&kind(&k["a"]), &kind(&k["b"]))})),
		"own" => dispatch(call(&k["do"]), RuntimeOrigin::signed(acct(u(&k["by"])))).map(|_| json!({})),
		"use" => {
			let force_proxy_type = (s(&k["as"]) != "").then(|| kind(&k["as"]));
			let call = Box::new(wrapped(&k["in"], call(&k["do"])));
			dispatch(pallet_proxy::Call::proxy { real: to(u(&k["of"])), force_proxy_type, call }, RuntimeOrigin::signed(acct(u(&k["by"]))))?;
			Ok(json!({"got": got()}))
		}
		"let" => Ok(json!({"may": <<Runtime as pallet_contracts::Config>::CallFilter as Contains<RuntimeCall>>::contains(&wrapped(&k["in"], call(&k["do"])))})),
		"inside" => {
			let data = wrapped(&k["in"], call(&k["do"])).encode();
			dispatch(
				pallet_contracts::Call::call { dest: to(4), value: 0, gas_limit: Weight::from_parts(1_000_000, 1_000), storage_deposit_limit: None, data },
				RuntimeOrigin::signed(acct(u(&k["by"]))),
			)
			.map(|_| json!({"got": got()}))
			.or_else(|e| Ok(json!({"got": if e.contains("CallFiltered") { "filtered" } else { "failed" }, "why": e})))
		}
		o => panic!("harness: unknown op {o}"),
	}
}
