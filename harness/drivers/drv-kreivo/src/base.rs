//! What all parts share: accounts, origins, blocks, dispatch.
use codec::{Decode, Encode};
use drvlib::{json, Value};
use frame_support::traits::OnInitialize;
use kreivo_runtime::*;
use sp_runtime::traits::Dispatchable;

pub fn u(v: &Value) -> u64 {
	v.as_u64().unwrap_or_else(|| panic!("harness: number expected, got {v}"))
}
pub fn s(v: &Value) -> &str {
	v.as_str().unwrap_or_else(|| panic!("harness: string expected, got {v}"))
}
pub fn list(v: &Value) -> &Vec<Value> {
	v.as_array().unwrap_or_else(|| panic!("harness: list expected, got {v}"))
}
pub fn account(v: &Value) -> AccountId {
	AccountId::from(drvlib::fixed::<32>(v))
}
pub fn show(a: &AccountId) -> Value {
	let b: &[u8; 32] = a.as_ref();
	json!(b.to_vec())
}
/// An amount as the specification sees it: quotient and rest by 2^30.
pub fn wide(b: Balance) -> Value {
	if b >> 60 == 0 { json!([(b >> 30) as u64, (b & ((1 << 30) - 1)) as u64]) } else { json!([-1, 0]) }
}
pub fn amount(v: &Value) -> Balance {
	((u(&v[0]) as Balance) << 30) + u(&v[1]) as Balance
}

/// The hash block `n` gets in these worlds.
pub fn hash_of(n: u32) -> Hash {
	Hash::from(sp_io::hashing::blake2_256(&(b"block", n).encode()))
}
/// Starts block `n` on top of block `n - 1`.
pub fn block(n: u32) {
	System::initialize(&n, &hash_of(n - 1), &Default::default());
	<AllPalletsWithoutSystem as OnInitialize<BlockNumber>>::on_initialize(n);
}

pub fn dispatch(call: impl Into<RuntimeCall>, origin: RuntimeOrigin) -> Result<(), String> {
	// a call travels encoded
	let bytes = call.into().encode();
	let call = RuntimeCall::decode(&mut &bytes[..]).map_err(|e| format!("decode: {e}"))?;
	call.dispatch(origin).map(|_| ()).map_err(|e| format!("{:?}", e.error))
}
/// A call the worlds are set up with.
pub fn must(what: &str, r: Result<(), String>) {
	if let Err(e) = r {
		panic!("harness: {what}: {e}")
	}
}

/// Remembered in storage, so that it goes back with it.
pub fn note<T: Encode>(key: &str, v: T) {
	frame_support::storage::unhashed::put(format!(":drv:{key}").as_bytes(), &v)
}
pub fn noted<T: Decode>(key: &str) -> Option<T> {
	frame_support::storage::unhashed::get(format!(":drv:{key}").as_bytes())
}

/// An origin of the runtime, by its kind `o`.
pub fn origin(v: &Value) -> RuntimeOrigin {
	match s(&v["o"]) {
		"root" => RuntimeOrigin::root(),
		"none" => RuntimeOrigin::none(),
		"signed" => RuntimeOrigin::signed(account(&v["a"])),
		"community" => pallet_communities::Origin::<Runtime>::new(u(&v["c"]) as u16).into(),
		"memberships" => governance::pallet_custom_origins::Origin::CreateMemberships.into(),
		"canceller" => governance::pallet_custom_origins::Origin::ReferendumCanceller.into(),
		"killer" => governance::pallet_custom_origins::Origin::ReferendumKiller.into(),
		"relay" => cumulus_pallet_xcm::Origin::Relay.into(),
		"sibling" => cumulus_pallet_xcm::Origin::SiblingParachain((u(&v["p"]) as u32).into()).into(),
		"place" => pallet_xcm::Origin::Xcm(crate::crosschain::place(&v["l"])).into(),
		o => panic!("harness: unknown origin {o}"),
	}
}
pub fn caller(v: &Value) -> OriginCaller {
	origin(v).caller
}
