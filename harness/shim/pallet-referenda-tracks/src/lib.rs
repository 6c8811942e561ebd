//! Stand-in for pallet-referenda-tracks: tracks kept in storage, found by id or by origin.
pub use frame_support::instances::*;
pub use pallet::*;
use fc_traits_tracks::MutateTracks;
use frame_support::ensure;
use frame_support::traits::{Get, OriginTrait};
use frame_system::pallet_prelude::BlockNumberFor;
pub use pallet_referenda::{BalanceOf, PalletsOriginOf};
use pallet_referenda::{Track, TrackInfo, TracksInfo};
use sp_runtime::DispatchResult;
use std::borrow::Cow;

pub type TrackInfoOf<T, I = ()> = TrackInfo<BalanceOf<T, I>, BlockNumberFor<T>>;
pub type TrackIdOf<T, I = ()> = <T as Config<I>>::TrackId;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::EnsureOriginWithArg;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config + pallet_referenda::Config<I> {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type AdminOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type UpdateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::TrackId>;
		type TrackId: Parameter + Member + Copy + Ord + MaxEncodedLen;
		type MaxTracks: Get<u32>;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type TracksIds<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::TrackId>, ValueQuery>;
	#[pallet::storage]
	pub type OriginToTrackId<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, PalletsOriginOf<T>, T::TrackId>;
	#[pallet::storage]
	pub type Tracks<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::TrackId, TrackInfoOf<T, I>>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { id: T::TrackId },
		Updated { id: T::TrackId, info: TrackInfoOf<T, I> },
		Removed { id: T::TrackId },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		MaxTracksExceeded,
		TrackIdNotFound,
		TrackIdAlreadyExisting,
		CannotRemove,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn insert(origin: OriginFor<T>, id: T::TrackId, info: TrackInfoOf<T, I>, pallet_origin: PalletsOriginOf<T>) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			Self::do_insert(id, info, pallet_origin)
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn update(origin: OriginFor<T>, id: T::TrackId, info: TrackInfoOf<T, I>) -> DispatchResult {
			T::UpdateOrigin::ensure_origin(origin, &id)?;
			Self::do_update(id, info)
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn remove(origin: OriginFor<T>, id: T::TrackId) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			Self::do_remove(id)
		}
	}
}
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	fn do_insert(id: T::TrackId, info: TrackInfoOf<T, I>, pallet_origin: PalletsOriginOf<T>) -> DispatchResult {
		ensure!(!Tracks::<T, I>::contains_key(id), Error::<T, I>::TrackIdAlreadyExisting);
		let mut ids = TracksIds::<T, I>::get();
		ensure!((ids.len() as u32) < T::MaxTracks::get(), Error::<T, I>::MaxTracksExceeded);
		ids.push(id);
		TracksIds::<T, I>::put(ids);
		Tracks::<T, I>::insert(id, info);
		OriginToTrackId::<T, I>::insert(pallet_origin, id);
		Self::deposit_event(Event::Created { id });
		Ok(())
	}
	fn do_update(id: T::TrackId, info: TrackInfoOf<T, I>) -> DispatchResult {
		ensure!(Tracks::<T, I>::contains_key(id), Error::<T, I>::TrackIdNotFound);
		Tracks::<T, I>::insert(id, info.clone());
		Self::deposit_event(Event::Updated { id, info });
		Ok(())
	}
	fn do_remove(id: T::TrackId) -> DispatchResult {
		ensure!(Tracks::<T, I>::contains_key(id), Error::<T, I>::TrackIdNotFound);
		Tracks::<T, I>::remove(id);
		TracksIds::<T, I>::mutate(|ids| ids.retain(|x| *x != id));
		let origins: Vec<_> = OriginToTrackId::<T, I>::iter().filter(|x| x.1 == id).map(|x| x.0).collect();
		for o in origins {
			OriginToTrackId::<T, I>::remove(o);
		}
		Self::deposit_event(Event::Removed { id });
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I> {
	type Id = T::TrackId;
	type RuntimeOrigin = <T::RuntimeOrigin as OriginTrait>::PalletsOrigin;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, BalanceOf<T, I>, BlockNumberFor<T>>>> {
		TracksIds::<T, I>::get().into_iter().filter_map(|id| Some(Cow::Owned(Track { id, info: Tracks::<T, I>::get(id)? })))
	}
	fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()> {
		OriginToTrackId::<T, I>::get(origin).ok_or(())
	}
	fn info(id: Self::Id) -> Option<Cow<'static, TrackInfoOf<T, I>>> {
		Tracks::<T, I>::get(id).map(Cow::Owned)
	}
}
impl<T: Config<I>, I: 'static> MutateTracks<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I> {
	fn insert(id: T::TrackId, info: TrackInfoOf<T, I>, pallet_origin: PalletsOriginOf<T>) -> DispatchResult {
		Self::do_insert(id, info, pallet_origin)
	}
	fn update(id: T::TrackId, info: TrackInfoOf<T, I>) -> DispatchResult {
		Self::do_update(id, info)
	}
	fn remove(id: T::TrackId, _: PalletsOriginOf<T>) -> DispatchResult {
		Self::do_remove(id)
	}
}
