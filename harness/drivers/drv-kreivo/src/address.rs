//! Addresses of every form, resolved and used.
use crate::{base::*, Family};
use drvlib::{json, Value};
use frame_support::traits::Currency;
use kreivo_runtime::*;
use sp_runtime::traits::StaticLookup;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
const PAYER: [u8; 32] = [7; 32];

fn start(_: &Value) {
	block(1);
	must("endowed", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id(PAYER.into()), new_free: 1000 * UNITS }, RuntimeOrigin::root()));
}
fn address(v: &Value) -> Address {
	match s(&v["f"]) {
		"id" => Address::Id(account(&v["a"])),
		"index" => Address::Index(u(&v["c"]) as u16),
		"raw" => Address::Raw(drvlib::bytes(&v["b"])),
		"32" => Address::Address32(drvlib::fixed(&v["b"])),
		"20" => Address::Address20(drvlib::fixed(&v["b"])),
		f => panic!("harness: unknown form of address {f}"),
	}
}
fn show_address(a: Address) -> Value {
	match a {
		Address::Id(a) => json!({"f": "id", "a": show(&a)}),
		Address::Index(c) => json!({"f": "index", "c": c}),
		Address::Raw(b) => json!({"f": "raw", "b": b}),
		Address::Address32(b) => json!({"f": "32", "b": b.to_vec()}),
		Address::Address20(b) => json!({"f": "20", "b": b.to_vec()}),
	}
}
/// everyone but the payer who has anything
fn world() -> Value {
	let mut rich: Vec<(Vec<u8>, u128)> = frame_system::Account::<Runtime>::iter_keys()
		.filter(|a| a != &AccountId::from(PAYER))
		.map(|a| (show(&a), Balances::free_balance(&a) / UNITS))
		.map(|(a, n)| (drvlib::bytes(&a), n))
		.filter(|x| x.1 > 0)
		.collect();
	rich.sort();
	json!({"rich": rich.iter().map(|(a, n)| json!({"a": a, "n": *n as u64})).collect::<Vec<_>>()})
}
type Lookup = <Runtime as frame_system::Config>::Lookup;
fn act(k: &Value) -> Result<Value, String> {
	match s(&k["op"]) {
		"resolve" => Lookup::lookup(address(&k["to"])).map(|a| json!({"a": show(&a)})).map_err(|_| "lookup".into()),
		"write" => Ok(json!({"to": show_address(Lookup::unlookup(account(&k["a"])))})),
		"give" => dispatch(pallet_balances::Call::transfer_allow_death { dest: address(&k["to"]), value: UNITS }, RuntimeOrigin::signed(PAYER.into())).map(|_| json!({})),
		op => panic!("harness: unknown operation {op}"),
	}
}
