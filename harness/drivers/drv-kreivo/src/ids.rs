//! Payments made at chosen blocks and extrinsics, and the ids they get.
use crate::{base::*, pay, Family};
use codec::Encode;
use drvlib::{json, Value};
use frame_support::traits::fungibles::{Create, Mutate};
use kreivo_runtime::*;
use pallet_payments::Call as C;
use virto_common::FungibleAssetLocation as Loc;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
const PAYER: [u8; 32] = [7; 32];
const ASSET: Loc = Loc::Here(1);
/// id, what was called, block, extrinsic, payee
type Issued = Vec<(Vec<u8>, String, u32, u32, AccountId)>;

fn start(_: &Value) {
	System::set_block_number(1);
	<Assets as Create<AccountId>>::create(ASSET, TreasuryAccount::get(), true, 1).expect("harness: asset");
	<Assets as Mutate<AccountId>>::mint_into(ASSET, &PAYER.into(), 1 << 40).expect("harness: balance");
}
fn world() -> Value {
	let issued = noted::<Issued>("issued").unwrap_or_default();
	let shown: Vec<Value> = issued
		.iter()
		.map(|(id, op, blk, ext, b)| json!({"id": id, "op": op, "blk": blk.to_le_bytes().to_vec(), "ext": ext.to_le_bytes().to_vec(), "b": show(b)}))
		.collect();
	json!({ "issued": shown })
}
fn act(k: &Value) -> Result<Value, String> {
	let blk = u32::from_le_bytes(drvlib::fixed(&k["blk"]));
	System::set_block_number(blk);
	let ext = match &k["ext"] {
		e if list(e).is_empty() => {
			// not in an extrinsic
			sp_io::storage::clear(&frame_system::ExtrinsicIndex::<Runtime>::hashed_key());
			0
		}
		e => {
			let e = u32::from_le_bytes(drvlib::fixed(e));
			System::set_extrinsic_index(e);
			e
		}
	};
	let b = account(&k["b"]);
	let call: RuntimeCall = match s(&k["op"]) {
		"pay" => C::pay { beneficiary: Address::Id(b.clone()), asset: ASSET, amount: 100, remark: None }.into(),
		"req" => C::request_payment { sender: Address::Id(PAYER.into()), asset: ASSET, amount: 100 }.into(),
		op => panic!("harness: unknown operation {op}"),
	};
	let from = if k["op"] == "pay" { PAYER.into() } else { b.clone() };
	dispatch(call, RuntimeOrigin::signed(from))?;
	let mut seen = noted::<Issued>("issued").unwrap_or_default();
	let id = pay::issued().map(|i| Encode::encode(&i)).unwrap_or_default();
	seen.push((id.clone(), s(&k["op"]).into(), blk, ext, b));
	note("issued", seen);
	Ok(json!({ "id": id }))
}
