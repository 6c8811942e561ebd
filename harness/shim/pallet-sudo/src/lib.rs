//! Stand-in for pallet-sudo.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::UnfilteredDispatchable};
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Sudid { sudo_result: Result<(), DispatchError> },
		KeyChanged { old: Option<T::AccountId>, new: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T> {
		RequireSudo,
	}
	#[pallet::storage]
	pub type Key<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;
	#[derive(frame_support::DefaultNoBound)]
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub key: Option<T::AccountId>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			if let Some(k) = &self.key {
				Key::<T>::put(k.clone());
			}
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(call.get_dispatch_info().weight)]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			ensure!(Some(who) == Key::<T>::get(), Error::<T>::RequireSudo);
			let res = call.dispatch_bypass_filter(RawOrigin::Root.into());
			Self::deposit_event(Event::Sudid { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(())
		}
	}
}
