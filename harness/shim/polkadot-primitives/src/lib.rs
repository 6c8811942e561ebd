//! Stand-in for polkadot-primitives.
pub use polkadot_core_primitives::*;
pub use polkadot_parachain_primitives::primitives::Id;
pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
