//! Stand-in for cumulus-pallet-aura-ext: types only.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {

	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

}

pub struct FixedVelocityConsensusHook<T, const SLOT: u32, const V: u32, const C: u32>(core::marker::PhantomData<T>);
pub struct BlockExecutor<T, I>(core::marker::PhantomData<(T, I)>);
