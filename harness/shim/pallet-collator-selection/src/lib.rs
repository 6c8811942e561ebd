//! Stand-in for pallet-collator-selection: call names, and the two settings the update origin guards.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Currency;
		type UpdateOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type PotId;
		type MaxCandidates;
		type MinEligibleCollators;
		type MaxInvulnerables;
		type KickThreshold;
		type ValidatorId;
		type ValidatorIdOf;
		type ValidatorRegistration;
		type WeightInfo;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		NewDesiredCandidates { desired_candidates: u32 },
		Unused(T::AccountId),
	}
	#[pallet::storage]
	pub type DesiredCandidates<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	pub type CandidacyBond<T: Config> = StorageValue<_, u128, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_invulnerables(origin: OriginFor<T>, new: Vec<T::AccountId>) -> DispatchResult {
			T::UpdateOrigin::ensure_origin(origin)?;
			let _ = (new,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_desired_candidates(origin: OriginFor<T>, max: u32) -> DispatchResult {
			T::UpdateOrigin::ensure_origin(origin)?;
			DesiredCandidates::<T>::put(max);
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_candidacy_bond(origin: OriginFor<T>, bond: u128) -> DispatchResult {
			T::UpdateOrigin::ensure_origin(origin)?;
			CandidacyBond::<T>::put(bond);
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn register_as_candidate(origin: OriginFor<T>) -> DispatchResult {
			ensure_signed(origin)?;
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn leave_intent(origin: OriginFor<T>) -> DispatchResult {
			ensure_signed(origin)?;
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn add_invulnerable(origin: OriginFor<T>, who: T::AccountId) -> DispatchResult {
			T::UpdateOrigin::ensure_origin(origin)?;
			let _ = (who,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn remove_invulnerable(origin: OriginFor<T>, who: T::AccountId) -> DispatchResult {
			T::UpdateOrigin::ensure_origin(origin)?;
			let _ = (who,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn update_bond(origin: OriginFor<T>, new_deposit: u128) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (new_deposit,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn take_candidate_slot(origin: OriginFor<T>, deposit: u128, target: T::AccountId) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (deposit, target,);
			Err(DispatchError::Other("not modelled"))
		}
	}
}

pub struct IdentityCollator;
