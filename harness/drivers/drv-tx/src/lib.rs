//! Signed transactions: what the runtime asks of them, and who pays for them.
//!
//! Accounts: 1 and 2 are ordinary (2 has a membership with gas), 3 is a key with next to nothing, 4 is the
//! account of a user's device (with a membership with gas of its own), 5 does not exist.
use codec::{Decode, Encode};
use drv_kreivo::{base::*, Family};
use drvlib::{json, Value};
use fc_traits_gas_tank::TANK;
use frame_support::{
	dispatch::{DispatchClass, GetDispatchInfo, SignedExtension, Terms},
	traits::{
		fungibles::{Inspect as _, Mutate as _},
		nonfungibles_v2::{Create, Inspect as _, Mutate},
		Currency, Get,
	},
	weights::Weight,
};
use kreivo_runtime::*;
use sp_runtime::{generic::Era, MultiSignature};
use virto_common::FungibleAssetLocation as Loc;

pub fn ready() {
	let _ = drv_kreivo::ELSEWHERE.set(|name| (name == "tx").then_some(FAMILY));
}
pub fn main() {
	ready();
	drv_kreivo::main()
}
pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
const ACCOUNTS: u8 = 5;
const USER: [u8; 32] = [77; 32];
const DEVICE: [u8; 32] = [78; 32];
const COMMUNITY: u16 = 1;
fn who(i: u64) -> AccountId {
	if i == 4 { pallet_pass::Pallet::<Runtime>::account_for(&USER) } else { [i as u8; 32].into() }
}
fn author() -> AccountId {
	[9; 32].into()
}
fn first<T: Decode>(x: impl Encode) -> T {
	T::decode(&mut &(0u8, x).encode()[..]).expect("harness: kind of device")
}
fn authority() -> fc_traits_authn::AuthorityId {
	<fc_traits_authn::util::AuthorityFromPalletId<<Runtime as pallet_pass::Config>::PalletId> as Get<_>>::get()
}
/// the membership of each of the two who have one
const MEMBERS: [(u32, u64); 2] = [(1, 2), (2, 4)];
fn gas(item: u32) -> Weight {
	let a = CommunityMemberships::system_attribute(&COMMUNITY, Some(&item), TANK);
	a.and_then(|a| Weight::decode(&mut &a[..]).ok()).unwrap_or_default()
}
/// cfg: {nat: [wide per account], ast: [wide per account], gas: [wide, wide]}
fn start(c: &Value) {
	block(1);
	block(2);
	let give = |who: AccountId, new_free: Balance| {
		must("balance", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id(who), new_free }, RuntimeOrigin::root()))
	};
	give(Treasury::account_id(), UNITS);
	give(author(), UNITS);
	let a = pass_webauthn::Attestation { authority: authority(), device: DEVICE, context: 1u32, challenge: hash_of(1).0.to_vec() };
	must("user", dispatch(pallet_pass::Call::<Runtime>::register { user: USER, attestation: first(a) }, RuntimeOrigin::root()));
	let min_balance = ExistentialDeposit::get();
	must("asset", dispatch(
		pallet_assets::Call::<Runtime, KreivoAssetsInstance>::force_create { id: Loc::Here(1), owner: Address::Id(who(100)), is_sufficient: true, min_balance },
		RuntimeOrigin::root(),
	));
	Assets::mint_into(Loc::Here(1), &author(), UNITS).expect("harness: author");
	for i in 1..=ACCOUNTS {
		let n = |k: &str| amount(&c[k][i as usize - 1]);
		if n("nat") > 0 {
			give(who(i as u64), n("nat"));
		}
		if n("ast") > 0 {
			Assets::mint_into(Loc::Here(1), &who(i as u64), n("ast")).expect("harness: asset");
		}
	}
	let one = who(1);
	<CommunityMemberships as Create<_, _>>::create_collection_with_id(COMMUNITY, &one, &one, &Default::default()).expect("harness: collection");
	for (j, (item, m)) in MEMBERS.into_iter().enumerate() {
		<CommunityMemberships as Mutate<_, _>>::mint_into(&COMMUNITY, &item, &who(m), &Default::default(), true).expect("harness: membership");
		let left = Weight::from_parts(amount(&c["gas"][j]) as u64, u64::MAX);
		CommunityMemberships::set_attribute(&COMMUNITY, &item, TANK, &left.encode()).expect("harness: gas");
	}
	pallet_authorship::Author::<Runtime>::put(author());
}
fn world() -> Value {
	let of = |f: &dyn Fn(AccountId) -> Value| (1..=ACCOUNTS).map(|i| f(who(i as u64))).collect::<Vec<_>>();
	json!({
		"blk": System::block_number(),
		"used": wide(frame_system::BlockWeight::<Runtime>::get()[DispatchClass::Normal as usize].ref_time() as u128),
		"nonce": of(&|a| json!(System::account_nonce(&a))),
		"nat": of(&|a| wide(Balances::total_balance(&a))),
		"ast": of(&|a| wide(Assets::balance(Loc::Here(1), &a))),
		"tre": wide(Balances::total_balance(&Treasury::account_id())),
		"aut": wide(Assets::balance(Loc::Here(1), &author())),
		"gas": MEMBERS.map(|(i, _)| wide(gas(i).ref_time() as u128)),
		"key": of(&|k| json!(pallet_pass::Sessions::<Runtime>::get(&k).map_or(0, |(a, t)| if a == who(4) { t } else { 999 }))),
	})
}
fn base_weight() -> Weight {
	<RuntimeBlockWeights as Get<frame_system::limits::BlockWeights>>::get().get(DispatchClass::Normal).base_extrinsic
}
fn deed(c: &Value) -> RuntimeCall {
	let give = || -> RuntimeCall { pallet_balances::Call::transfer_allow_death { dest: Address::Id(who(u(&c["to"]))), value: amount(&c["n"]) }.into() };
	match s(&c["what"]) {
		"give" => give(),
		"act" => pallet_pass::Call::dispatch { call: Box::new(give()), maybe_credential: None, maybe_next_session_key: None }.into(),
		"login" => {
			let cx = u(&c["cx"]) as BlockNumber;
			let cred = pass_webauthn::Credential { authority: authority(), user: USER, device: DEVICE, context: cx, challenge: hash_of(cx).0.to_vec() };
			pallet_pass::Call::authenticate { device: DEVICE, credential: first(cred), duration: Some(u(&c["dur"]) as BlockNumber) }.into()
		}
		w => panic!("harness: unknown deed {w}"),
	}
}
fn act(k: &Value) -> Result<Value, String> {
	match s(&k["op"]) {
		"wait" => {
			for _ in 0..u(&k["n"]) {
				block(System::block_number() + 1)
			}
			Ok(json!({}))
		}
		// others leave just the room a gift takes, give or take a little
		"fill" => {
			let gift: RuntimeCall = pallet_balances::Call::transfer_allow_death { dest: Address::Id(who(1)), value: 0 }.into();
			let takes = base_weight().ref_time() + gift.get_dispatch_info().weight.ref_time();
			let to = 1_500_000_000_000 - (takes as i64 - k["d"].as_i64().expect("harness: d"));
			frame_system::BlockWeight::<Runtime>::mutate(|w| w[DispatchClass::Normal as usize] = Weight::from_parts(to as u64, 0));
			Ok(json!({"to": wide(to as u128)}))
		}
		"tx" => Ok(send(k)),
		o => panic!("harness: unknown op {o}"),
	}
}
fn send(k: &Value) -> Value {
	let believes = |what: &str| k[what] == true;
	let era: Vec<u64> = list(&k["era"]).iter().map(u).collect();
	let tip = amount(&k["tip"]);
	let terms = Terms {
		nonce: u(&k["no"]) as u32,
		era: if era.is_empty() { Era::Immortal } else { Era::mortal(era[0], era[1]) },
		tip,
		asset: (u(&k["in"]) == 1).then(|| Loc::Here(1).encode()),
		spec_version: VERSION.spec_version - if believes("spec") { 0 } else { 1 },
		transaction_version: VERSION.transaction_version - if believes("txv") { 0 } else { 1 },
		genesis: if believes("gen") { hash_of(0) } else { hash_of(1) }.encode(),
		// a transaction that lives forever counts from the first block
		birth: hash_of(era.get(1).copied().unwrap_or(0) as u32).encode(),
	};
	type Ext = SignedExtra;
	let extra_of = |t: &Terms| <Ext as SignedExtension<AccountId, RuntimeCall>>::terms(t);
	let believed = <Ext as SignedExtension<AccountId, RuntimeCall>>::believed(&terms);
	let call = deed(&k["call"]);
	let (by, sig) = (u(&k["by"]), s(&k["sig"]));
	// what the sender put their name under
	let signed_call = if sig == "call" { SystemCall::remark { remark: vec![1] }.into() } else { call.clone() };
	let signed_extra = if sig == "terms" { extra_of(&Terms { tip: tip + 1, ..terms.clone() }) } else { extra_of(&terms) };
	let mut m = frame_executive::payload(&signed_call, &signed_extra, believed);
	let signer = who(if sig == "other" { by + 1 } else { by });
	m.extend_from_slice(signer.as_ref());
	let signature = MultiSignature::Sr25519(sp_io::hashing::blake2_256(&m));
	let address = if sig == "community" { Address::Index(COMMUNITY) } else { Address::Id(who(by)) };
	let xt = UncheckedExtrinsic { signature: (sig != "none").then(|| (address, signature, extra_of(&terms))), function: call.clone() };
	let bytes = xt.encode();
	let info = call.get_dispatch_info();
	let fee = TransactionPayment::compute_fee(bytes.len() as u32, &info, tip);
	// as it travels
	let xt = UncheckedExtrinsic::decode(&mut &bytes[..]).expect("harness: transaction");
	let res = Executive::apply_extrinsic(xt);
	json!({
		"taken": res.is_ok(),
		"done": matches!(res, Ok(Ok(()))),
		"why": format!("{res:?}"),
		"fee": wide(fee),
		"w": wide(info.weight.ref_time() as u128),
		"base": wide(base_weight().ref_time() as u128),
		"ed": wide(ExistentialDeposit::get()),
	})
}
