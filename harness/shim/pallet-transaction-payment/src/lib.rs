//! Stand-in for pallet-transaction-payment: what a transaction costs (at a multiplier of one) and the paying of it.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config<BlockWeights: Get<frame_system::limits::BlockWeights>> {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type WeightToFee: frame_support::weights::WeightToFee<Balance = u128>;
		type LengthToFee: frame_support::weights::WeightToFee<Balance = u128>;
		type FeeMultiplierUpdate;
		type OperationalFeeMultiplier;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId },
	}
}

impl<T: Config> Pallet<T> {
	pub fn weight_to_fee(weight: Weight) -> u128 {
		let max = <T::BlockWeights as Get<frame_system::limits::BlockWeights>>::get().max_block;
		<T::WeightToFee as WeightToFee>::weight_to_fee(&weight.min(max))
	}
	pub fn length_to_fee(length: u32) -> u128 {
		<T::LengthToFee as WeightToFee>::weight_to_fee(&Weight::from_parts(length as u64, 0))
	}
	pub fn compute_fee(len: u32, info: &frame_support::dispatch::DispatchInfo, tip: u128) -> u128 {
		Self::of(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_actual_fee(len: u32, info: &frame_support::dispatch::DispatchInfo, post: &frame_support::dispatch::PostDispatchInfo, tip: u128) -> u128 {
		let actual = post.actual_weight.map_or(info.weight, |w| w.min(info.weight));
		let pays = if info.pays_fee == Pays::No || post.pays_fee == Pays::No { Pays::No } else { Pays::Yes };
		Self::of(len, actual, tip, pays, info.class)
	}
	fn of(len: u32, weight: Weight, tip: u128, pays: Pays, class: frame_support::dispatch::DispatchClass) -> u128 {
		if pays == Pays::No {
			return tip;
		}
		let base = <T::BlockWeights as Get<frame_system::limits::BlockWeights>>::get().get(class).base_extrinsic;
		Self::weight_to_fee(base).saturating_add(Self::length_to_fee(len)).saturating_add(Self::weight_to_fee(weight)).saturating_add(tip)
	}
}

use frame_support::{
	dispatch::Pays,
	traits::{fungible, tokens::{Fortitude, Precision, Preservation}, Get, OnUnbalanced},
	weights::{Weight, WeightToFee},
};
pub trait OnChargeTransaction<T: Config> {
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, fee: u128, tip: u128) -> Result<Self::LiquidityInfo, &'static str>;
	fn correct_and_deposit_fee(who: &T::AccountId, corrected: u128, tip: u128, paid: Self::LiquidityInfo) -> Result<(), &'static str>;
}
pub struct FungibleAdapter<F, OU>(core::marker::PhantomData<(F, OU)>);
impl<T: Config, F: fungible::Mutate<T::AccountId, Balance = u128>, OU: OnUnbalanced<fungible::Credit<T::AccountId, F>>> OnChargeTransaction<T> for FungibleAdapter<F, OU> {
	type LiquidityInfo = Option<u128>;
	fn withdraw_fee(who: &T::AccountId, fee: u128, _tip: u128) -> Result<Option<u128>, &'static str> {
		if fee == 0 {
			return Ok(None);
		}
		F::burn_from(who, fee, Preservation::Preserve, Precision::Exact, Fortitude::Polite).map(Some).map_err(|_| "Payment")
	}
	fn correct_and_deposit_fee(who: &T::AccountId, corrected: u128, tip: u128, paid: Option<u128>) -> Result<(), &'static str> {
		if let Some(paid) = paid {
			let refund = paid.saturating_sub(corrected);
			// what cannot be given back goes the way of the fee
			let kept = if refund > 0 && F::mint_into(who, refund).is_ok() { paid - refund } else { paid };
			let tip = tip.min(kept);
			OU::on_unbalanceds([fungible::Credit::of(tip), fungible::Credit::of(kept - tip)].into_iter());
		}
		Ok(())
	}
}
