//! Stand-in for pallet-asset-tx-payment: fees paid in another asset.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: pallet_transaction_payment::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Fungibles: fungibles::Inspect<Self::AccountId>;
		type OnChargeAssetTransaction: OnChargeAssetTransaction<Self>;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		AssetTxFeePaid { who: T::AccountId },
	}
}

use frame_support::traits::{fungibles, tokens::{ConversionToAssetBalance, Fortitude, Precision, Preservation}};
pub type AssetIdOf<T> = <<T as Config>::Fungibles as fungibles::Inspect<<T as frame_system::Config>::AccountId>>::AssetId;
pub trait OnChargeAssetTransaction<T: Config> {
	type LiquidityInfo;
	fn withdraw_fee(who: &T::AccountId, asset: AssetIdOf<T>, fee: u128) -> Result<Self::LiquidityInfo, &'static str>;
	fn correct_and_deposit_fee(who: &T::AccountId, asset: AssetIdOf<T>, corrected: u128, paid: Self::LiquidityInfo) -> Result<(), &'static str>;
}
pub struct FungiblesAdapter<CON, HC>(core::marker::PhantomData<(CON, HC)>);
impl<T: Config, CON: ConversionToAssetBalance<u128, AssetIdOf<T>, u128>, HC: HandleCredit<T::AccountId, T::Fungibles>> OnChargeAssetTransaction<T> for FungiblesAdapter<CON, HC>
where
	T::Fungibles: fungibles::Mutate<T::AccountId, Balance = u128>,
	AssetIdOf<T>: Clone + codec::Encode,
{
	type LiquidityInfo = u128;
	fn withdraw_fee(who: &T::AccountId, asset: AssetIdOf<T>, fee: u128) -> Result<u128, &'static str> {
		// at least one unit of the asset, unless nothing is due
		let min = if fee == 0 { 0 } else { 1 };
		let due = CON::to_asset_balance(fee, asset.clone()).map_err(|_| "Payment")?.max(min);
		<T::Fungibles as fungibles::Mutate<_>>::burn_from(asset, who, due, Preservation::Preserve, Precision::Exact, Fortitude::Polite).map_err(|_| "Payment")
	}
	fn correct_and_deposit_fee(who: &T::AccountId, asset: AssetIdOf<T>, corrected: u128, paid: u128) -> Result<(), &'static str> {
		let min = if corrected == 0 { 0 } else { 1 };
		let due = CON::to_asset_balance(corrected, asset.clone()).map_err(|_| "Payment")?.max(min).min(paid);
		let refund = paid - due;
		let _ = refund > 0 && <T::Fungibles as fungibles::Mutate<_>>::mint_into(asset.clone(), who, refund).is_ok();
		HC::handle_credit(fungibles::Credit::of(asset, due));
		Ok(())
	}
}
#[derive(codec::Encode, codec::Decode)]
pub struct ChargeAssetTxPayment<T> {
	tip: u128,
	/// encoded; none for the native currency
	asset: Option<Vec<u8>>,
	_p: core::marker::PhantomData<T>,
}
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo, SignedExtension, Terms};
use pallet_transaction_payment::OnChargeTransaction;
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
type NativePaid<T> = <<T as pallet_transaction_payment::Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo;
type AssetPaid<T> = <<T as Config>::OnChargeAssetTransaction as OnChargeAssetTransaction<T>>::LiquidityInfo;
pub enum Paid<T: Config> {
	Nothing,
	Native(NativePaid<T>),
	Asset(AssetIdOf<T>, AssetPaid<T>),
}
impl<T: Config> SignedExtension<T::AccountId, T::RuntimeCall> for ChargeAssetTxPayment<T>
where
	AssetIdOf<T>: codec::Decode + Clone,
{
	type Pre = (T::AccountId, u128, Paid<T>);
	fn terms(t: &Terms) -> Self {
		Self { tip: t.tip, asset: t.asset.clone(), _p: Default::default() }
	}
	fn pre_dispatch(self, who: &T::AccountId, _: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let refused = |_| TransactionValidityError::Invalid(InvalidTransaction::Payment);
		let fee = pallet_transaction_payment::Pallet::<T>::compute_fee(len as u32, info, self.tip);
		let paid = match self.asset {
			_ if fee == 0 => Paid::Nothing,
			Some(a) => {
				let a: AssetIdOf<T> = codec::Decode::decode(&mut &a[..]).map_err(|_| refused(""))?;
				Paid::Asset(a.clone(), T::OnChargeAssetTransaction::withdraw_fee(who, a, fee).map_err(refused)?)
			}
			None => Paid::Native(T::OnChargeTransaction::withdraw_fee(who, fee, self.tip).map_err(refused)?),
		};
		Ok((who.clone(), self.tip, paid))
	}
	fn post_dispatch((who, tip, paid): Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		let fee = pallet_transaction_payment::Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
		match paid {
			Paid::Nothing => Ok(()),
			Paid::Native(paid) => T::OnChargeTransaction::correct_and_deposit_fee(&who, fee, tip, paid),
			Paid::Asset(a, paid) => T::OnChargeAssetTransaction::correct_and_deposit_fee(&who, a, fee, paid),
		}
		.map_err(|_| InvalidTransaction::Payment.into())
	}
}
pub trait HandleCredit<AccountId, B> {
	fn handle_credit(credit: frame_support::traits::fungibles::Credit<AccountId, B>);
}
