//! Accounts opened and used with devices that show the hash of a recent block.
use crate::{base::*, Family};
use codec::{Decode, Encode};
use drvlib::{json, Value};
use frame_support::traits::Get;
use kreivo_runtime::*;

pub const FAMILY: Family = Family { start, act, world, events: || json!([]) };
type At = BlockNumber;

fn start(c: &Value) {
	block(1);
	for _ in 1..u(&c["blk"]) {
		block(System::block_number() + 1);
	}
	for i in 0..4u8 {
		must("endowed", dispatch(pallet_balances::Call::force_set_balance { who: Address::Id([i; 32].into()), new_free: 1000 * UNITS }, RuntimeOrigin::root()));
	}
}
fn of(v: &Value) -> [u8; 32] {
	[u(v) as u8; 32]
}
/// users, devices and keys have the same number in each byte
fn number(a: &[u8; 32]) -> u8 {
	if a.iter().all(|b| *b == a[0]) { a[0] } else { 255 }
}
fn user_of(a: &AccountId) -> u8 {
	pallet_pass::Accounts::<Runtime>::get(a).map_or(255, |u| number(&u))
}
fn world() -> Value {
	let mut devices: Vec<(u8, u8)> = pallet_pass::Devices::<Runtime>::iter().map(|(a, d, _)| (user_of(&a), number(&d))).collect();
	devices.sort();
	let mut keys: Vec<(u8, u8, At)> =
		pallet_pass::Sessions::<Runtime>::iter().map(|(k, (a, until))| (number(k.as_ref()), user_of(&a), until)).collect();
	keys.sort();
	json!({
		"blk": System::block_number(),
		"dev": devices.iter().map(|(u, d)| json!({"u": u, "d": d})).collect::<Vec<_>>(),
		"key": keys.iter().map(|(k, u, t)| json!({"k": k, "u": u, "t": t})).collect::<Vec<_>>(),
	})
}
/// what a device shows: the hash of a block, or something made up
fn shown(k: &Value) -> Vec<u8> {
	match k["ch"].as_i64().expect("harness: ch") {
		-1 => vec![0; 32],
		-2 => vec![7; 32],
		-3 => hash_of(u(&k["cx"]) as At).0[..31].to_vec(),
		-4 => vec![],
		-5 => [&hash_of(u(&k["cx"]) as At).0[..], &[0]].concat(),
		j => hash_of(j as At).0.to_vec(),
	}
}
/// The user whose account made the call, if the call was let through.
fn spoken() -> i64 {
	System::events()
		.iter()
		.find_map(|r| match &r.event {
			RuntimeEvent::System(frame_system::Event::Remarked { sender, .. }) => Some(user_of(sender) as i64),
			_ => None,
		})
		.unwrap_or(-1)
}
/// the first kind of device the runtime knows
fn first<T: Decode>(x: impl Encode) -> T {
	T::decode(&mut &(0u8, x).encode()[..]).expect("harness: kind of device")
}
fn act(k: &Value) -> Result<Value, String> {
	let op = s(&k["op"]);
	if op == "next" {
		for _ in 0..u(&k["n"]) {
			block(System::block_number() + 1)
		}
		return Ok(json!({"as": -1}));
	}
	let authority = || -> fc_traits_authn::AuthorityId {
		type Id = <Runtime as pallet_pass::Config>::PalletId;
		if k["au"] == true { <fc_traits_authn::util::AuthorityFromPalletId<Id> as Get<_>>::get() } else { *b"kreivo_q------------------------" }
	};
	let context = || u(&k["cx"]) as At;
	let credential = || {
		let c = pass_webauthn::Credential { authority: authority(), user: of(&k["u"]), device: of(&k["d"]), context: context(), challenge: shown(k) };
		first(c)
	};
	let remark = || Box::new(frame_system::Call::remark_with_event { remark: vec![1] }.into());
	let key = || RuntimeOrigin::signed(of(&k["k"]).into());
	use pallet_pass::Call as C;
	let (call, from): (C<Runtime>, _) = match op {
		"reg" => {
			let a = pass_webauthn::Attestation { authority: authority(), device: of(&k["d"]), context: context(), challenge: shown(k) };
			(C::register { user: of(&k["u"]), attestation: first(a) }, key())
		}
		"auth" => (
			C::authenticate { device: of(&k["d"]), credential: credential(), duration: k.get("dur").map(|d| u(d) as At) },
			key(),
		),
		"disp" => (C::dispatch { call: remark(), maybe_credential: Some((of(&k["d"]), credential())), maybe_next_session_key: None }, key()),
		"sess" => (C::dispatch { call: remark(), maybe_credential: None, maybe_next_session_key: None }, key()),
		_ => panic!("harness: unknown operation {op}"),
	};
	dispatch(call, from)?;
	Ok(json!({"as": spoken()}))
}
