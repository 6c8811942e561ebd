//! Stand-in for fc-traits-tracks.
use pallet_referenda::{TrackInfo, TracksInfo};
use sp_runtime::DispatchResult;
pub trait MutateTracks<Balance, Moment>: TracksInfo<Balance, Moment>
where
	Balance: Clone + core::fmt::Debug + Eq + 'static,
	Moment: Clone + core::fmt::Debug + Eq + 'static,
{
	fn insert(id: Self::Id, info: TrackInfo<Balance, Moment>, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
	fn update(id: Self::Id, info: TrackInfo<Balance, Moment>) -> DispatchResult;
	fn remove(id: Self::Id, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
}
