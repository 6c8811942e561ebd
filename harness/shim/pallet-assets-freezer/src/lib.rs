//! Stand-in for pallet-assets-freezer.
pub use frame_support::instances::*;
pub use pallet::*;
use codec::{Decode, Encode};
use frame_support::traits::tokens::{
	fungibles, DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence,
};
use frame_support::ensure;
use sp_runtime::traits::Zero;
use sp_runtime::DispatchResult;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, scale_info::TypeInfo)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::{pallet_prelude::*, traits::VariantCount};
	#[pallet::config(with_default)]
	pub trait Config<I: 'static = ()>: frame_system::Config + pallet_assets::Config<I> {
		type RuntimeFreezeReason: Parameter + Member + MaxEncodedLen + Copy + VariantCount;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Frozen { who: T::AccountId, asset_id: T::AssetId, amount: T::Balance },
		Thawed { who: T::AccountId, asset_id: T::AssetId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		TooManyFreezes,
	}
	#[pallet::storage]
	pub type Freezes<T: Config<I>, I: 'static = ()> = StorageDoubleMap<
		_,
		Blake2_128Concat,
		T::AssetId,
		Blake2_128Concat,
		T::AccountId,
		Vec<IdAmount<T::RuntimeFreezeReason, T::Balance>>,
		ValueQuery,
	>;
	#[pallet::storage]
	pub type FrozenBalances<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, T::Balance>;
}
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	fn update(asset: T::AssetId, who: &T::AccountId, f: Vec<IdAmount<T::RuntimeFreezeReason, T::Balance>>) -> DispatchResult {
		let max = f.iter().map(|x| x.amount).max();
		match max {
			Some(m) => FrozenBalances::<T, I>::insert(&asset, who, m),
			None => FrozenBalances::<T, I>::remove(&asset, who),
		}
		if f.is_empty() {
			Freezes::<T, I>::remove(&asset, who)
		} else {
			Freezes::<T, I>::insert(&asset, who, f)
		}
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> pallet_assets::FrozenBalance<T::AssetId, T::AccountId, T::Balance> for Pallet<T, I> {
	fn frozen_balance(asset: T::AssetId, who: &T::AccountId) -> Option<T::Balance> {
		FrozenBalances::<T, I>::get(asset, who)
	}
	fn died(asset: T::AssetId, who: &T::AccountId) {
		FrozenBalances::<T, I>::remove(&asset, who);
		Freezes::<T, I>::remove(&asset, who);
	}
}
impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn total_issuance(asset: T::AssetId) -> T::Balance {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::total_issuance(asset)
	}
	fn minimum_balance(asset: T::AssetId) -> T::Balance {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::minimum_balance(asset)
	}
	fn total_balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::total_balance(asset, who)
	}
	fn balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::balance(asset, who)
	}
	fn reducible_balance(asset: T::AssetId, who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::reducible_balance(asset, who, p, f)
	}
	fn can_deposit(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::can_deposit(asset, who, amount, p)
	}
	fn can_withdraw(asset: T::AssetId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::can_withdraw(asset, who, amount)
	}
	fn asset_exists(asset: T::AssetId) -> bool {
		<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::asset_exists(asset)
	}
}
impl<T: Config<I>, I: 'static> fungibles::freeze::Inspect<T::AccountId> for Pallet<T, I> {
	type Id = T::RuntimeFreezeReason;
	fn balance_frozen(asset: T::AssetId, id: &Self::Id, who: &T::AccountId) -> T::Balance {
		Freezes::<T, I>::get(asset, who).iter().find(|x| &x.id == id).map_or_else(Zero::zero, |x| x.amount)
	}
	fn can_freeze(asset: T::AssetId, id: &Self::Id, who: &T::AccountId) -> bool {
		use frame_support::traits::VariantCount;
		let f = Freezes::<T, I>::get(asset, who);
		f.iter().any(|x| &x.id == id) || (f.len() as u32) < T::RuntimeFreezeReason::VARIANT_COUNT
	}
}
impl<T: Config<I>, I: 'static> fungibles::freeze::Mutate<T::AccountId> for Pallet<T, I> {
	fn set_freeze(asset: T::AssetId, id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		use frame_support::traits::VariantCount;
		if amount.is_zero() {
			return Self::thaw(asset, id, who);
		}
		let mut f = Freezes::<T, I>::get(&asset, who);
		if let Some(x) = f.iter_mut().find(|x| &x.id == id) {
			x.amount = amount;
		} else {
			ensure!((f.len() as u32) < T::RuntimeFreezeReason::VARIANT_COUNT, Error::<T, I>::TooManyFreezes);
			f.push(IdAmount { id: *id, amount });
		}
		Self::update(asset, who, f)
	}
	fn extend_freeze(asset: T::AssetId, id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		let old = <Self as fungibles::freeze::Inspect<_>>::balance_frozen(asset.clone(), id, who);
		Self::set_freeze(asset, id, who, old.max(amount))
	}
	fn thaw(asset: T::AssetId, id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		let mut f = Freezes::<T, I>::get(&asset, who);
		f.retain(|x| &x.id != id);
		Self::update(asset, who, f)
	}
}
