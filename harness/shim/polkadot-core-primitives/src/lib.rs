//! Stand-in for polkadot-core-primitives.
pub type BlockNumber = u32;
pub type Moment = u64;
pub type Balance = u128;
pub type AccountId = sp_runtime::AccountId32;
pub type Hash = sp_core::H256;
pub type Nonce = u32;
pub mod v2 {
	pub use super::*;
}
