//! Stand-in for parachain-info: this chain's number.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {

	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::type_value]
	pub fn DefaultForParachainId() -> u32 {
		2281
	}
	#[pallet::storage]
	pub type ParachainId<T: Config> = StorageValue<_, u32, ValueQuery, DefaultForParachainId>;
}

impl<T: Config> Pallet<T> {
	pub fn parachain_id() -> cumulus_primitives_core::ParaId {
		ParachainId::<T>::get().into()
	}
}
