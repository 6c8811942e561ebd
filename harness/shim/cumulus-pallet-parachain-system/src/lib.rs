//! Stand-in for cumulus-pallet-parachain-system: keeps what the chain sends upwards.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type OnSystemEvent;
		type SelfParaId;
		type OutboundXcmpMessageSource;
		type DmpQueue;
		type ReservedDmpWeight;
		type XcmpMessageHandler;
		type ReservedXcmpWeight;
		type CheckAssociatedRelayNumber;
		type ConsensusHook;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		UpwardMessageSent { message_hash: Option<[u8; 32]> },
	}
	#[pallet::storage]
	pub type UpwardMessages<T: Config> = StorageValue<_, Vec<Vec<u8>>, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_validation_data(origin: OriginFor<T>, data: Vec<u8>) -> DispatchResult {
			ensure_none(origin)?;
			let _ = (data,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn sudo_send_upward_message(origin: OriginFor<T>, message: Vec<u8>) -> DispatchResult {
			ensure_root(origin)?;
			UpwardMessages::<T>::mutate(|v| v.push(message));
			Ok(())
		}
	}
}

pub struct RelayNumberMonotonicallyIncreases;
pub struct ParachainSetCode<T>(core::marker::PhantomData<T>);
#[macro_export]
macro_rules! register_validate_block {
	( $($t:tt)* ) => {};
}
impl<T: Config> cumulus_primitives_core::UpwardMessageSender for Pallet<T> {
	fn send_upward_message(message: Vec<u8>) -> Result<(), ()> {
		UpwardMessages::<T>::mutate(|v| v.push(message));
		Ok(())
	}
}
