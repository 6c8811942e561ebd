//! Stand-in for pallet-preimage: reference-counted preimages, no deposits.
pub use pallet::*;
use frame_support::traits::{FetchResult, QueryPreimage, StorePreimage};
use sp_runtime::traits::Hash;
use sp_runtime::DispatchError;
use std::borrow::Cow;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::Hash;
	#[pallet::composite_enum]
	pub enum HoldReason {
		Preimage,
	}
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type Currency;
		type ManagerOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type Consideration;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Noted { hash: T::Hash },
		Requested { hash: T::Hash },
		Cleared { hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooBig,
		AlreadyNoted,
		NotAuthorized,
		NotNoted,
	}
	#[pallet::storage]
	pub type PreimageFor<T: Config> = StorageMap<_, Identity, T::Hash, Vec<u8>>;
	#[pallet::storage]
	pub type RequestCount<T: Config> = StorageMap<_, Identity, T::Hash, u32, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn note_preimage(origin: OriginFor<T>, bytes: Vec<u8>) -> DispatchResult {
			ensure_signed_or_root(origin)?;
			let hash = T::Hashing::hash(&bytes);
			ensure!(!PreimageFor::<T>::contains_key(hash), Error::<T>::AlreadyNoted);
			PreimageFor::<T>::insert(hash, bytes);
			Self::deposit_event(Event::Noted { hash });
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn unnote_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
			ensure_signed_or_root(origin)?;
			let _ = hash;
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn request_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
			T::ManagerOrigin::ensure_origin(origin)?;
			let _ = hash;
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn unrequest_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
			T::ManagerOrigin::ensure_origin(origin)?;
			let _ = hash;
			Err(DispatchError::Other("not modelled"))
		}
	}
}
impl<T: Config> QueryPreimage for Pallet<T> {
	type H = T::Hashing;
	fn len(hash: &T::Hash) -> Option<u32> {
		PreimageFor::<T>::get(hash).map(|v| v.len() as u32)
	}
	fn fetch(hash: &T::Hash, len: Option<u32>) -> FetchResult {
		let v = PreimageFor::<T>::get(hash).ok_or(DispatchError::Unavailable)?;
		if len.map_or(false, |l| l as usize != v.len()) {
			return Err(DispatchError::Unavailable);
		}
		Ok(Cow::Owned(v))
	}
	fn is_requested(hash: &T::Hash) -> bool {
		RequestCount::<T>::get(hash) > 0
	}
	fn request(hash: &T::Hash) {
		RequestCount::<T>::mutate(hash, |c| *c += 1)
	}
	fn unrequest(hash: &T::Hash) {
		let c = RequestCount::<T>::get(hash).saturating_sub(1);
		if c == 0 {
			RequestCount::<T>::remove(hash);
			PreimageFor::<T>::remove(hash);
		} else {
			RequestCount::<T>::insert(hash, c);
		}
	}
}
impl<T: Config> StorePreimage for Pallet<T> {
	const MAX_LENGTH: usize = 4 * 1024 * 1024;
	fn note(bytes: Cow<[u8]>) -> Result<T::Hash, DispatchError> {
		let hash = T::Hashing::hash(&bytes);
		RequestCount::<T>::mutate(hash, |c| *c += 1);
		PreimageFor::<T>::insert(hash, bytes.into_owned());
		Ok(hash)
	}
}
