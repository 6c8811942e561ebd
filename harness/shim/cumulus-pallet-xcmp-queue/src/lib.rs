//! Stand-in for cumulus-pallet-xcmp-queue: keeps what the chain sends to its siblings.
use codec::Encode;
use xcm::latest::prelude::*;
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type ChannelInfo;
		type VersionWrapper;
		type XcmpQueue;
		type MaxActiveOutboundChannels;
		type MaxPageSize;
		type MaxInboundSuspended;
		type ControllerOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type ControllerOriginConverter;
		type WeightInfo;
		type PriceForSiblingDelivery;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		XcmpMessageSent { message_hash: [u8; 32] },
	}
	#[pallet::storage]
	pub type QueueSuspended<T: Config> = StorageValue<_, bool, ValueQuery>;
	#[pallet::storage]
	pub type OutboundMessages<T: Config> = StorageValue<_, Vec<(u32, Vec<u8>)>, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn suspend_xcm_execution(origin: OriginFor<T>) -> DispatchResult {
			T::ControllerOrigin::ensure_origin(origin)?;
			QueueSuspended::<T>::put(true);
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn resume_xcm_execution(origin: OriginFor<T>) -> DispatchResult {
			T::ControllerOrigin::ensure_origin(origin)?;
			QueueSuspended::<T>::put(false);
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn update_suspend_threshold(origin: OriginFor<T>, new: u32) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (new,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn update_drop_threshold(origin: OriginFor<T>, new: u32) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (new,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn update_resume_threshold(origin: OriginFor<T>, new: u32) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (new,);
			Err(DispatchError::Other("not modelled"))
		}
	}
}

impl<T: Config> SendXcm for Pallet<T> {
	type Ticket = (u32, Vec<u8>);
	fn validate(dest: &mut Option<Location>, msg: &mut Option<Xcm<()>>) -> SendResult<(u32, Vec<u8>)> {
		let d = dest.take().ok_or(SendError::MissingArgument)?;
		match d.unpack() {
			(1, [Parachain(id)]) => {
				let id = *id;
				let xcm = msg.take().ok_or(SendError::MissingArgument)?;
				Ok(((id, xcm::VersionedXcm::<()>::from(xcm).encode()), Assets::new()))
			}
			_ => {
				*dest = Some(d);
				Err(SendError::NotApplicable)
			}
		}
	}
	fn deliver((id, data): (u32, Vec<u8>)) -> Result<XcmHash, SendError> {
		let hash = sp_io::hashing::blake2_256(&data);
		OutboundMessages::<T>::mutate(|v| v.push((id, data)));
		Pallet::<T>::deposit_event(Event::XcmpMessageSent { message_hash: hash });
		Ok(hash)
	}
}
