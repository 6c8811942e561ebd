//! Stand-in for pallet-message-queue: hands a message to the configured processor at once.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;
	use frame_support::traits::ProcessMessage;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type MessageProcessor: ProcessMessage;
		type Size;
		type QueueChangeHandler;
		type QueuePausedQuery;
		type HeapSize;
		type MaxStale;
		type ServiceWeight: Get<Weight>;
		type IdleMaxServiceWeight;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Processed { id: [u8; 32], success: bool },
		ProcessingFailed { id: [u8; 32] },
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn reap_page(origin: OriginFor<T>, message_origin: cumulus_primitives_core::AggregateMessageOrigin, page_index: u32) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (message_origin, page_index,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn execute_overweight(origin: OriginFor<T>, message_origin: cumulus_primitives_core::AggregateMessageOrigin, page: u32, index: u32, weight_limit: Weight) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (message_origin, page, index, weight_limit,);
			Err(DispatchError::Other("not modelled"))
		}
	}
	impl<T: Config> Pallet<T> {
		/// Process this message now; what the processor says about it.
		pub fn deliver(message: &[u8], origin: <T::MessageProcessor as ProcessMessage>::Origin) -> Result<bool, frame_support::traits::ProcessMessageError> {
			let mut id = sp_io::hashing::blake2_256(message);
			let r = T::MessageProcessor::process_message(message, origin, T::ServiceWeight::get(), &mut id);
			match &r {
				Ok(success) => Self::deposit_event(Event::Processed { id, success: *success }),
				Err(_) => Self::deposit_event(Event::ProcessingFailed { id }),
			}
			r
		}
	}
}
