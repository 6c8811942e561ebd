//! Stand-in for pallet-treasury: its account, and who may spend.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Currency: frame_support::traits::Currency<Self::AccountId, Balance = u128>;
		type RejectOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type SpendPeriod;
		type Burn;
		type PalletId: Get<frame_support::PalletId>;
		type BurnDestination;
		type WeightInfo;
		type SpendFunds;
		type MaxApprovals;
		type SpendOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = u128>;
		type AssetKind;
		type Beneficiary;
		type BeneficiaryLookup;
		type Paymaster;
		type BalanceConverter;
		type PayoutPeriod;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Spending { budget_remaining: u128 },
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn spend_local(origin: OriginFor<T>, #[pallet::compact] amount: u128, beneficiary: LookupOf<T>) -> DispatchResult {
			let max = T::SpendOrigin::ensure_origin(origin)?;
			let _ = beneficiary;
			ensure!(amount <= max, DispatchError::Other("InsufficientPermission"));
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn remove_approval(origin: OriginFor<T>, #[pallet::compact] proposal_id: u32) -> DispatchResult {
			T::RejectOrigin::ensure_origin(origin)?;
			let _ = (proposal_id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn spend(origin: OriginFor<T>, #[pallet::compact] amount: u128, beneficiary: LookupOf<T>, valid_from: Option<u32>) -> DispatchResult {
			T::SpendOrigin::ensure_origin(origin)?;
			let _ = (amount, beneficiary, valid_from,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn payout(origin: OriginFor<T>, index: u32) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (index,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn check_status(origin: OriginFor<T>, index: u32) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (index,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn void_spend(origin: OriginFor<T>, index: u32) -> DispatchResult {
			T::RejectOrigin::ensure_origin(origin)?;
			let _ = (index,);
			Err(DispatchError::Other("not modelled"))
		}
	}
}

impl<T: Config> Pallet<T> {
	pub fn account_id() -> T::AccountId {
		use {frame_support::traits::Get, sp_runtime::traits::AccountIdConversion};
		T::PalletId::get().into_account_truncating()
	}
}

/// what is taken from others goes into the pot
impl<T: Config> frame_support::traits::OnUnbalanced<u128> for Pallet<T> {
	fn on_nonzero_unbalanced(amount: u128) {
		use frame_support::traits::Currency;
		T::Currency::deposit_creating(&Self::account_id(), amount);
	}
}
