//! Stand-in for cumulus-pallet-xcm: the origins of messages from the relay chain and from siblings.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type XcmExecutor;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		InvalidFormat { id: [u8; 32] },
	}
	#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo, RuntimeDebug, MaxEncodedLen)]
	#[pallet::origin]
	pub enum Origin {
		Relay,
		SiblingParachain(cumulus_primitives_core::ParaId),
	}
	impl From<u32> for Origin {
		fn from(id: u32) -> Origin {
			Origin::SiblingParachain(id.into())
		}
	}
}
