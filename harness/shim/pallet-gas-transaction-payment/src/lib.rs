//! Stand-in for pallet-gas-transaction-payment: the gas of one's memberships pays before money does.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type GasBurner: fc_traits_gas_tank::GasBurner<Self::AccountId>;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		GasBurned { who: T::AccountId },
	}
}

#[derive(codec::Encode, codec::Decode, Clone, PartialEq, Eq, Debug)]
pub struct ChargeTransactionPayment<T, S>(pub S, core::marker::PhantomData<T>);

use fc_traits_gas_tank::GasBurner;
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo, SignedExtension, Terms};
use sp_runtime::transaction_validity::TransactionValidityError;
pub enum Paid<A, G, S> {
	Gas(A, G),
	Money(S),
}
impl<T: Config, S: SignedExtension<T::AccountId, T::RuntimeCall>> SignedExtension<T::AccountId, T::RuntimeCall> for ChargeTransactionPayment<T, S> {
	type Pre = Paid<T::AccountId, <T::GasBurner as GasBurner<T::AccountId>>::Tank, S::Pre>;
	fn terms(t: &Terms) -> Self {
		Self(S::terms(t), core::marker::PhantomData)
	}
	fn believed(t: &Terms) -> Vec<u8> {
		S::believed(t)
	}
	fn additional_signed(&self) -> Result<Vec<u8>, TransactionValidityError> {
		self.0.additional_signed()
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		match T::GasBurner::check_available_gas(who, &info.weight) {
			Some(tank) => Ok(Paid::Gas(who.clone(), tank)),
			None => self.0.pre_dispatch(who, call, info, len).map(Paid::Money),
		}
	}
	fn post_dispatch(pre: Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		match pre {
			Paid::Gas(who, tank) => {
				let used = post.actual_weight.map_or(info.weight, |w| w.min(info.weight));
				T::GasBurner::burn_gas(tank, &used);
				Pallet::<T>::deposit_event(Event::GasBurned { who });
				Ok(())
			}
			Paid::Money(pre) => S::post_dispatch(pre, info, post, len),
		}
	}
}
