//! Stand-in for pallet-xcm: sending, and transfers to and from reserves.
use codec::{Encode, MaxEncodedLen};
use frame_support::traits::{Contains, EnsureOrigin, Get};
use xcm::{latest::prelude::*, VersionedAssets, VersionedLocation, VersionedXcm};
use xcm_executor::{
	traits::{ClaimAssets, ConvertOrigin, DropAssets},
	AssetsInHolding,
};
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type SendXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
		type ExecuteXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
		type XcmRouter: SendXcm;
		type XcmExecuteFilter: Contains<(Location, Xcm<<Self as Config>::RuntimeCall>)>;
		type XcmExecutor: ExecuteXcm<<Self as Config>::RuntimeCall>;
		type XcmTeleportFilter: Contains<(Location, Vec<Asset>)>;
		type XcmReserveTransferFilter: Contains<(Location, Vec<Asset>)>;
		type Weigher;
		type UniversalLocation: Get<InteriorLocation>;
		type RuntimeOrigin: IsType<<Self as frame_system::Config>::RuntimeOrigin>;
		type RuntimeCall: Parameter + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type AdvertisedXcmVersion;
		type Currency;
		type CurrencyMatcher;
		type TrustedLockers;
		type SovereignAccountOf;
		type MaxLockers;
		type WeightInfo;
		type AdminOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type MaxRemoteLockConsumers;
		type RemoteLockConsumerIdentifier;
		const VERSION_DISCOVERY_QUEUE_SIZE: u32;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Sent { origin: Location, destination: Location, message_id: XcmHash },
		AssetsTrapped { hash: [u8; 32], origin: Location },
		AssetsClaimed { hash: [u8; 32], origin: Location },
	}
	#[pallet::error]
	pub enum Error<T> {
		Unreachable,
		SendFailure,
		Filtered,
		InvalidOrigin,
		LocalExecutionIncomplete,
		InvalidAssetUnsupportedReserve,
	}
	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		Xcm(Location),
		Response(Location),
	}
	#[pallet::storage]
	pub type AssetTraps<T: Config> = StorageMap<_, Identity, [u8; 32], u32, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn send(origin: OriginFor<T>, dest: Box<VersionedLocation>, message: Box<VersionedXcm<()>>) -> DispatchResult {
			let origin_location = T::SendXcmOrigin::ensure_origin(origin)?;
			let interior: Junctions = match origin_location.clone().parents_and_interior() {
				(0, i) => i,
				_ => return Err(Error::<T>::InvalidOrigin.into()),
			};
			let dest = (*dest).into_latest();
			let mut message = (*message).into_latest();
			if !interior.is_empty() {
				message.0.insert(0, DescendOrigin(interior));
			}
			let (message_id, _) = send_xcm::<T::XcmRouter>(dest.clone(), message.clone()).map_err(|e| match e {
				SendError::Unroutable | SendError::NotApplicable => Error::<T>::Unreachable,
				_ => Error::<T>::SendFailure,
			})?;
			Self::deposit_event(Event::Sent { origin: origin_location, destination: dest, message_id });
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn teleport_assets(origin: OriginFor<T>, dest: Box<VersionedLocation>, beneficiary: Box<VersionedLocation>, assets: Box<VersionedAssets>, fee_asset_item: u32) -> DispatchResult {
			Self::guard::<T::XcmTeleportFilter>(origin, *assets)?;
			let _ = (dest, beneficiary, fee_asset_item);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn reserve_transfer_assets(origin: OriginFor<T>, dest: Box<VersionedLocation>, beneficiary: Box<VersionedLocation>, assets: Box<VersionedAssets>, fee_asset_item: u32) -> DispatchResult {
			let _ = fee_asset_item;
			Self::do_reserve_transfer(origin, *dest, *beneficiary, *assets)
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn execute(origin: OriginFor<T>, message: Box<VersionedXcm<<T as Config>::RuntimeCall>>, max_weight: Weight) -> DispatchResult {
			let origin_location = T::ExecuteXcmOrigin::ensure_origin(origin)?;
			let value = (origin_location, (*message).into_latest());
			ensure!(T::XcmExecuteFilter::contains(&value), Error::<T>::Filtered);
			let (origin_location, message) = value;
			let mut id = [0; 32];
			T::XcmExecutor::prepare_and_execute(origin_location, message, &mut id, max_weight, max_weight)
				.ensure_complete()
				.map_err(|_| Error::<T>::LocalExecutionIncomplete)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_xcm_version(origin: OriginFor<T>, location: Box<Location>, version: u32) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			let _ = (location, version);
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_default_xcm_version(origin: OriginFor<T>, maybe_xcm_version: Option<u32>) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			let _ = maybe_xcm_version;
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_subscribe_version_notify(origin: OriginFor<T>, location: Box<VersionedLocation>) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			let _ = (location,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_unsubscribe_version_notify(origin: OriginFor<T>, location: Box<VersionedLocation>) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			let _ = (location,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn limited_reserve_transfer_assets(origin: OriginFor<T>, dest: Box<VersionedLocation>, beneficiary: Box<VersionedLocation>, assets: Box<VersionedAssets>, fee_asset_item: u32, weight_limit: WeightLimit) -> DispatchResult {
			let _ = (fee_asset_item, weight_limit);
			Self::do_reserve_transfer(origin, *dest, *beneficiary, *assets)
		}
		#[pallet::call_index(9)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn limited_teleport_assets(origin: OriginFor<T>, dest: Box<VersionedLocation>, beneficiary: Box<VersionedLocation>, assets: Box<VersionedAssets>, fee_asset_item: u32, weight_limit: WeightLimit) -> DispatchResult {
			Self::guard::<T::XcmTeleportFilter>(origin, *assets)?;
			let _ = (dest, beneficiary, fee_asset_item, weight_limit);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(10)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_suspension(origin: OriginFor<T>, suspended: bool) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			let _ = suspended;
			Ok(())
		}
		#[pallet::call_index(11)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn transfer_assets(origin: OriginFor<T>, dest: Box<VersionedLocation>, beneficiary: Box<VersionedLocation>, assets: Box<VersionedAssets>, fee_asset_item: u32, weight_limit: WeightLimit) -> DispatchResult {
			let _ = (fee_asset_item, weight_limit);
			Self::do_reserve_transfer(origin, *dest, *beneficiary, *assets)
		}
		#[pallet::call_index(12)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn claim_assets(origin: OriginFor<T>, assets: Box<VersionedAssets>, beneficiary: Box<VersionedLocation>) -> DispatchResult {
			T::ExecuteXcmOrigin::ensure_origin(origin)?;
			let _ = (assets, beneficiary,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(13)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn transfer_assets_using_type_and_then(origin: OriginFor<T>, dest: Box<VersionedLocation>, assets: Box<VersionedAssets>, weight_limit: WeightLimit) -> DispatchResult {
			T::ExecuteXcmOrigin::ensure_origin(origin)?;
			let _ = (dest, assets, weight_limit,);
			Err(DispatchError::Other("not modelled"))
		}
	}
	impl<T: Config> Pallet<T> {
		fn guard<F: Contains<(Location, Vec<Asset>)>>(origin: OriginFor<T>, assets: VersionedAssets) -> Result<(Location, Vec<Asset>), DispatchError> {
			let who = T::ExecuteXcmOrigin::ensure_origin(origin)?;
			let value = (who, assets.into_latest().into_inner());
			ensure!(F::contains(&value), Error::<T>::Filtered);
			Ok(value)
		}
		/// Send assets home to the chain that keeps them; other directions are not modelled.
		fn do_reserve_transfer(origin: OriginFor<T>, dest: VersionedLocation, beneficiary: VersionedLocation, assets: VersionedAssets) -> DispatchResult {
			let (who, assets) = Self::guard::<T::XcmReserveTransferFilter>(origin, assets)?;
			let (dest, beneficiary) = (dest.into_latest(), beneficiary.into_latest());
			ensure!(assets.iter().all(|a| a.id.0.starts_with(&dest)), Error::<T>::InvalidAssetUnsupportedReserve);
			let program = Xcm(vec![
				WithdrawAsset(assets.into()),
				InitiateReserveWithdraw {
					assets: Wild(All),
					reserve: dest,
					xcm: Xcm(vec![DepositAsset { assets: Wild(All), beneficiary }]),
				},
			]);
			let mut id = [0; 32];
			T::XcmExecutor::prepare_and_execute(who, program, &mut id, Weight::MAX, Weight::MAX)
				.ensure_complete()
				.map_err(|_| Error::<T>::LocalExecutionIncomplete)?;
			Ok(())
		}
		pub fn check_account() -> T::AccountId {
			use sp_runtime::traits::AccountIdConversion;
			frame_support::PalletId(*b"py/xcmch").into_account_truncating()
		}
	}
}

pub struct CurrentXcmVersion;
pub struct TestWeightInfo;
impl<T: Config> DropAssets for Pallet<T> {
	fn drop_assets(origin: &Location, assets: AssetsInHolding, _: &XcmContext) -> Weight {
		if !assets.is_empty() {
			let hash = sp_io::hashing::blake2_256(&(origin, Assets::from(assets.into_assets())).encode());
			AssetTraps::<T>::mutate(hash, |n| *n += 1);
			Self::deposit_event(Event::AssetsTrapped { hash, origin: origin.clone() });
		}
		Weight::zero()
	}
}
impl<T: Config> ClaimAssets for Pallet<T> {
	fn claim_assets(origin: &Location, _ticket: &Location, assets: &Assets, _: &XcmContext) -> bool {
		let hash = sp_io::hashing::blake2_256(&(origin, assets).encode());
		match AssetTraps::<T>::get(hash) {
			0 => return false,
			1 => AssetTraps::<T>::remove(hash),
			n => AssetTraps::<T>::insert(hash, n - 1),
		}
		Self::deposit_event(Event::AssetsClaimed { hash, origin: origin.clone() });
		true
	}
}
/// Programs keep the place they come from.
pub struct XcmPassthrough<RuntimeOrigin>(core::marker::PhantomData<RuntimeOrigin>);
impl<RuntimeOrigin: From<Origin>> ConvertOrigin<RuntimeOrigin> for XcmPassthrough<RuntimeOrigin> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<RuntimeOrigin, Location> {
		let origin = origin.into();
		match kind {
			OriginKind::Xcm => Ok(Origin::Xcm(origin).into()),
			_ => Err(origin),
		}
	}
}
pub struct EnsureXcm<F>(core::marker::PhantomData<F>);
impl<O: Into<Result<Origin, O>> + From<Origin>, F: Contains<Location>> EnsureOrigin<O> for EnsureXcm<F> {
	type Success = Location;
	fn try_origin(outer: O) -> Result<Location, O> {
		outer.into().and_then(|o| match o {
			Origin::Xcm(ref location) if F::contains(location) => Ok(location.clone()),
			o => Err(o.into()),
		})
	}
}
pub struct IsVoiceOfBody<Prefix, Body>(core::marker::PhantomData<(Prefix, Body)>);
impl<Prefix: Get<Location>, Body: Get<BodyId>> Contains<Location> for IsVoiceOfBody<Prefix, Body> {
	fn contains(l: &Location) -> bool {
		let p = Prefix::get();
		l.parent_count() == p.parent_count()
			&& l.len() == p.len() + 1
			&& l.starts_with(&p)
			&& matches!(l.last(), Some(Plurality { id, part: BodyPart::Voice }) if id == &Body::get())
	}
}
