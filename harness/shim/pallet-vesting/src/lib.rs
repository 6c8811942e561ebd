//! Stand-in for pallet-vesting: call names only.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Currency;
		type BlockNumberToBalance;
		type MinVestedTransfer;
		type WeightInfo;
		type UnvestedFundsAllowedWithdrawReasons;
		type BlockNumberProvider;
		const MAX_VESTING_SCHEDULES: u32;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		VestingCompleted { account: T::AccountId },
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn vest(origin: OriginFor<T>) -> DispatchResult {
			ensure_signed(origin)?;
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn vest_other(origin: OriginFor<T>, target: LookupOf<T>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (target,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn vested_transfer(origin: OriginFor<T>, target: LookupOf<T>, schedule: (u128, u128, u32)) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (target, schedule,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_vested_transfer(origin: OriginFor<T>, source: LookupOf<T>, target: LookupOf<T>, schedule: (u128, u128, u32)) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (source, target, schedule,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn merge_schedules(origin: OriginFor<T>, schedule1_index: u32, schedule2_index: u32) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (schedule1_index, schedule2_index,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_remove_vesting_schedule(origin: OriginFor<T>, target: LookupOf<T>, schedule_index: u32) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (target, schedule_index,);
			Err(DispatchError::Other("not modelled"))
		}
	}
}
