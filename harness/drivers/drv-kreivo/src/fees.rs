//! What transactions cost, who pays it and who gets it.
use crate::{base::*, Family};
use drvlib::{json, Value};
use frame_support::{
	dispatch::{DispatchClass, DispatchInfo, Pays, PostDispatchInfo},
	traits::{fungibles::Inspect as _, Currency, Get},
	weights::Weight,
};
use kreivo_runtime::*;
use pallet_asset_tx_payment::OnChargeAssetTransaction;
use pallet_transaction_payment::OnChargeTransaction;
use virto_common::FungibleAssetLocation as Loc;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
const PAYERS: u8 = 3;
const ASSETS: u32 = 2;
fn payer(i: u8) -> AccountId {
	[i; 32].into()
}
fn author() -> AccountId {
	[9; 32].into()
}
fn amount(v: &Value) -> u128 {
	((u(&v[0]) as u128) << 30) + u(&v[1]) as u128
}
/// cfg: {nat: [wide per payer], ast: per asset [wide per payer], min: per asset, in existential deposits (0: not sufficient),
///       author: whether the block has one, rich: whether they hold all assets already}
fn start(c: &Value) {
	block(1);
	block(2);
	let give = |who: AccountId, new_free: Balance| {
		must("balance", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id(who), new_free }, RuntimeOrigin::root()))
	};
	give(Treasury::account_id(), UNITS);
	for i in 1..=PAYERS {
		give(payer(i), amount(&c["nat"][i as usize - 1]));
	}
	give(author(), UNITS);
	for a in 1..=ASSETS {
		let k = u(&c["min"][a as usize - 1]) as u128;
		let min_balance = k.max(1) * ExistentialDeposit::get();
		let owner = Address::Id(payer(100));
		must("asset", dispatch(pallet_assets::Call::<Runtime, KreivoAssetsInstance>::force_create { id: Loc::Here(a), owner, is_sufficient: k > 0, min_balance }, RuntimeOrigin::root()));
		for i in 1..=PAYERS {
			give_asset(a, payer(i), amount(&c["ast"][a as usize - 1][i as usize - 1]));
		}
		if c["rich"] == true {
			give_asset(a, author(), UNITS);
		}
	}
	if c["author"] == true {
		pallet_authorship::Author::<Runtime>::put(author());
	}
}
fn give_asset(a: u32, who: AccountId, n: u128) {
	if n > 0 {
		use frame_support::traits::fungibles::Mutate;
		// not everyone can hold every asset
		let _ = Assets::mint_into(Loc::Here(a), &who, n);
	}
}
fn world() -> Value {
	let nat = |a: AccountId| wide(Balances::total_balance(&a));
	let ast = |n: u32, a: AccountId| wide(Assets::balance(Loc::Here(n), &a));
	let all = |f: &dyn Fn(AccountId) -> Value| json!({
		"payers": (1..=PAYERS).map(|i| f(payer(i))).collect::<Vec<_>>(),
		"treasury": f(Treasury::account_id()),
		"author": f(author()),
	});
	let mut purses = vec![all(&nat)];
	purses[0]["total"] = wide(Balances::total_issuance());
	for a in 1..=ASSETS {
		let mut p = all(&|who| ast(a, who));
		p["total"] = wide(Assets::total_issuance(Loc::Here(a)));
		purses.push(p);
	}
	json!(purses)
}
fn weight(v: &Value) -> Weight {
	Weight::from_parts(amount(&v["t"]) as u64, amount(&v["p"]) as u64)
}
fn base() -> Weight {
	<RuntimeBlockWeights as Get<frame_system::limits::BlockWeights>>::get().get(DispatchClass::Normal).base_extrinsic
}
fn act(k: &Value) -> Result<Value, String> {
	type Pay = <Runtime as pallet_transaction_payment::Config>::OnChargeTransaction;
	type PayAsset = <Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;
	let w = weight(&k["w"]);
	let prices = |w: Weight, n: u32| json!({
		"ed": wide(ExistentialDeposit::get()),
		"cent": wide(CENTS),
		"base": wide(base().ref_time() as u128),
		"flat": wide(TransactionPayment::weight_to_fee(base())),
		"weighed": wide(TransactionPayment::weight_to_fee(w)),
		"length": wide(TransactionPayment::length_to_fee(n)),
	});
	match s(&k["op"]) {
		"price" => Ok(prices(w, u(&k["n"]) as u32)),
		"tx" => {
			let (n, tip) = (u(&k["n"]) as u32, amount(&k["tip"]));
			let who = payer(u(&k["by"]) as u8);
			let took = k.get("took").map(weight);
			let free = k["free"] == true;
			let info = DispatchInfo { weight: w, class: DispatchClass::Normal, pays_fee: Pays::Yes };
			let post = PostDispatchInfo { actual_weight: took, pays_fee: if free { Pays::No } else { Pays::Yes } };
			let due = TransactionPayment::compute_fee(n, &info, tip);
			let real = TransactionPayment::compute_actual_fee(n, &info, &post, tip);
			let charge = || match u(&k["in"]) {
				0 => {
					let paid = <Pay as OnChargeTransaction<Runtime>>::withdraw_fee(&who, due, tip)?;
					<Pay as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&who, real, tip, paid)
				}
				a => {
					let paid = <PayAsset as OnChargeAssetTransaction<Runtime>>::withdraw_fee(&who, Loc::Here(a as u32), due)?;
					<PayAsset as OnChargeAssetTransaction<Runtime>>::correct_and_deposit_fee(&who, Loc::Here(a as u32), real, paid)
				}
			};
			let paid: Result<(), &str> = charge();
			let mut p = prices(took.map_or(w, |t| t.min(w)), n);
			p["first"] = wide(TransactionPayment::weight_to_fee(w));
			p["paid"] = json!(paid.is_ok());
			Ok(p)
		}
		o => panic!("harness: unknown op {o}"),
	}
}
