//! Stand-in for pallet-utility: batches, derived accounts and dispatching as another origin, as upstream.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;
	use frame_support::traits::{OriginTrait, PalletInfo};

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = frame_support::dispatch::PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin: Parameter + Into<<Self as frame_system::Config>::RuntimeOrigin>;
		type WeightInfo;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		BatchInterrupted { index: u32, error: DispatchError },
		BatchCompleted,
		ItemCompleted,
		ItemFailed { error: DispatchError },
		DispatchedAs { result: DispatchResult },
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure!(ensure_none(origin.clone()).is_err(), DispatchError::BadOrigin);
			let is_root = ensure_root(origin.clone()).is_ok();
			for (index, call) in calls.into_iter().enumerate() {
				let result = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				if let Err(e) = result {
					Self::deposit_event(Event::BatchInterrupted { index: index as u32, error: e.error });
					return Ok(());
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn as_derivative(origin: OriginFor<T>, index: u16, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let mut origin = origin;
			let who = ensure_signed(origin.clone())?;
			let pseudonym = Self::derivative_account_id(who, index);
			origin.set_caller_from(RawOrigin::Signed(pseudonym));
			call.dispatch(origin).map(|_| ()).map_err(|e| e.error)
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure!(ensure_none(origin.clone()).is_err(), DispatchError::BadOrigin);
			let is_root = ensure_root(origin.clone()).is_ok();
			for call in calls {
				let result = if is_root {
					call.dispatch_bypass_filter(origin.clone())
				} else {
					let mut filtered = origin.clone();
					// do not allow nested `batch_all`
					filtered.add_filter(|c: &<T as frame_system::Config>::RuntimeCall| {
						!matches!(codec::Encode::encode(c)[..], [p, 2, ..] if Some(p as usize) == <T as frame_system::Config>::PalletInfo::index::<Pallet<T>>())
					});
					call.dispatch(filtered)
				};
				result.map_err(|e| e.error)?;
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn dispatch_as(origin: OriginFor<T>, as_origin: Box<T::PalletsOrigin>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure_root(origin)?;
			let result = call.dispatch_bypass_filter((*as_origin).into()).map(|_| ()).map_err(|e| e.error);
			Self::deposit_event(Event::DispatchedAs { result });
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure!(ensure_none(origin.clone()).is_err(), DispatchError::BadOrigin);
			let is_root = ensure_root(origin.clone()).is_ok();
			for call in calls {
				let result = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				match result {
					Ok(_) => Self::deposit_event(Event::ItemCompleted),
					Err(e) => Self::deposit_event(Event::ItemFailed { error: e.error }),
				}
			}
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn with_weight(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>, weight: Weight) -> DispatchResult {
			ensure_root(origin.clone())?;
			let _ = weight;
			call.dispatch_bypass_filter(origin).map(|_| ()).map_err(|e| e.error)
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn derivative_account_id(who: T::AccountId, index: u16) -> T::AccountId {
			let entropy = (b"modlpy/utilisuba", who, index).using_encoded(sp_io::hashing::blake2_256);
			Decode::decode(&mut sp_runtime::traits::TrailingZeroInput::new(entropy.as_ref())).expect("infinite length input")
		}
	}
}
