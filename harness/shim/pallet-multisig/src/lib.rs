//! Stand-in for pallet-multisig: the one-signature form, as upstream; the other call names.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = frame_support::dispatch::PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type Currency;
		type DepositBase;
		type DepositFactor;
		type MaxSignatories;
		type WeightInfo;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		MultisigExecuted { multisig: T::AccountId, result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooFewSignatories,
		SenderInSignatories,
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn as_multi_threshold_1(origin: OriginFor<T>, other_signatories: Vec<T::AccountId>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let mut all = other_signatories;
			ensure!(!all.is_empty(), Error::<T>::TooFewSignatories);
			ensure!(!all.contains(&who), Error::<T>::SenderInSignatories);
			all.push(who);
			all.sort();
			let id = Self::multi_account_id(&all, 1);
			call.dispatch(RawOrigin::Signed(id).into()).map(|_| ()).map_err(|e| e.error)
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn as_multi(origin: OriginFor<T>, threshold: u16, other_signatories: Vec<T::AccountId>, maybe_timepoint: Option<(u32, u32)>, call: Box<<T as Config>::RuntimeCall>, max_weight: Weight) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (threshold, other_signatories, maybe_timepoint, call, max_weight,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn approve_as_multi(origin: OriginFor<T>, threshold: u16, other_signatories: Vec<T::AccountId>, maybe_timepoint: Option<(u32, u32)>, call_hash: sp_core::H256, max_weight: Weight) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (threshold, other_signatories, maybe_timepoint, call_hash, max_weight,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn cancel_as_multi(origin: OriginFor<T>, threshold: u16, other_signatories: Vec<T::AccountId>, timepoint: (u32, u32), call_hash: sp_core::H256) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (threshold, other_signatories, timepoint, call_hash,);
			Err(DispatchError::Other("not modelled"))
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn multi_account_id(who: &[T::AccountId], threshold: u16) -> T::AccountId {
			let entropy = (b"modlpy/utilisuba", who, threshold).using_encoded(sp_io::hashing::blake2_256);
			Decode::decode(&mut sp_runtime::traits::TrailingZeroInput::new(entropy.as_ref())).expect("infinite length input")
		}
	}
}
