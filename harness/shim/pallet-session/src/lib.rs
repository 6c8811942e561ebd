//! Stand-in for pallet-session: call names only.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type ValidatorId;
		type ValidatorIdOf;
		type ShouldEndSession;
		type NextSessionRotation;
		type SessionManager;
		type SessionHandler;
		type Keys;
		type WeightInfo;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		NewSession { session_index: u32 },
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_keys(origin: OriginFor<T>, keys: sp_core::H256, proof: Vec<u8>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (keys, proof,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn purge_keys(origin: OriginFor<T>) -> DispatchResult {
			ensure_signed(origin)?;
			Err(DispatchError::Other("not modelled"))
		}
	}
}

pub struct PeriodicSessions<P, O>(core::marker::PhantomData<(P, O)>);
pub struct FindAccountFromAuthorIndex<T, I>(core::marker::PhantomData<(T, I)>);
