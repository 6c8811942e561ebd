//! Traits.
pub mod tokens;
pub use tokens::{fungible, fungibles, nonfungible_v2, nonfungibles_v2};
pub use tokens::currency::{self, *};
pub use tokens::{ExistenceRequirement, WithdrawReasons};
pub use tokens::imbalance::{self, Imbalance, OnUnbalanced, ResolveTo, ResolveAssetTo};
mod dispatch;
pub use dispatch::*;
mod filter;
pub use filter::*;
mod hooks;
pub use hooks::*;
mod misc;
pub use misc::*;
mod members;
pub use members::*;
pub mod schedule;
mod preimages;
pub use preimages::*;
mod voting;
pub use voting::*;
pub use sp_core::{Get, GetDefault, TypedGet, ConstBool, ConstI8, ConstI16, ConstI32, ConstI64, ConstI128, ConstU8, ConstU16, ConstU32, ConstU64, ConstU128, ConstInt, ConstUint};
pub use sp_runtime::traits::{Dispatchable, MaybeEquivalence, Morph, MorphInto, TryMorph};
pub mod tasks {
	pub trait Task: Sized {}
}
pub use tasks::Task;
