//! Stand-in for pallet-skip-feeless-payment: calls that cost nothing are spared a check.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		FeeSkipped { who: T::AccountId },
	}
}

#[derive(codec::Encode, codec::Decode, Clone, PartialEq, Eq, Debug)]
pub struct SkipCheckIfFeeless<T, S>(pub S, core::marker::PhantomData<T>);

use frame_support::{
	dispatch::{CheckIfFeeless, DispatchInfo, PostDispatchInfo, SignedExtension, Terms},
	traits::OriginTrait,
};
use sp_runtime::transaction_validity::TransactionValidityError;
impl<T: Config, S: SignedExtension<T::AccountId, T::RuntimeCall>> SignedExtension<T::AccountId, T::RuntimeCall> for SkipCheckIfFeeless<T, S>
where
	T::RuntimeCall: CheckIfFeeless<Origin = T::RuntimeOrigin>,
{
	/// who was spared, or what the check made of it
	type Pre = Result<S::Pre, T::AccountId>;
	fn terms(t: &Terms) -> Self {
		Self(S::terms(t), core::marker::PhantomData)
	}
	fn believed(t: &Terms) -> Vec<u8> {
		S::believed(t)
	}
	fn additional_signed(&self) -> Result<Vec<u8>, TransactionValidityError> {
		self.0.additional_signed()
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		if call.is_feeless(&<T::RuntimeOrigin as OriginTrait>::signed(who.clone())) {
			Ok(Err(who.clone()))
		} else {
			self.0.pre_dispatch(who, call, info, len).map(Ok)
		}
	}
	fn post_dispatch(pre: Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		match pre {
			Ok(pre) => S::post_dispatch(pre, info, post, len),
			Err(who) => {
				Pallet::<T>::deposit_event(Event::FeeSkipped { who });
				Ok(())
			}
		}
	}
}
