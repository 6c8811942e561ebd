//! Stand-in for pallet-contracts: who may upload and instantiate, and what contracts may ask of the chain.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;
	use frame_support::traits::{fungible::Mutate as _, Contains, OriginTrait};

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Time;
		type Randomness;
		type Currency: frame_support::traits::fungible::Mutate<Self::AccountId, Balance = u128>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = frame_support::dispatch::PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type UploadOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Self::AccountId>;
		type InstantiateOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Self::AccountId>;
		type CallFilter: frame_support::traits::Contains<<Self as frame_system::Config>::RuntimeCall>;
		type DepositPerItem;
		type DepositPerByte;
		type CallStack;
		type WeightPrice;
		type WeightInfo;
		type Schedule;
		type AddressGenerator;
		type ChainExtension;
		type ApiVersion;
		type MaxCodeLen;
		type MaxTransientStorageSize;
		type DefaultDepositLimit;
		type MaxStorageKeyLen;
		type MaxDebugBufferLen;
		type UnsafeUnstableInterface;
		type CodeHashLockupDepositPercent;
		type MaxDelegateDependencies;
		type RuntimeHoldReason: From<HoldReason>;
		type Environment;
		type Debug;
		type Migrations;
		type Xcm;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::composite_enum]
	pub enum HoldReason {
		CodeUploadDepositReserve,
		StorageDepositReserve,
	}

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		CodeStored { code_hash: sp_core::H256, uploader: T::AccountId },
		Instantiated { deployer: T::AccountId, contract: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T> {
		CodeNotFound,
		ContractNotFound,
		DecodingFailed,
		DuplicateContract,
	}
	#[pallet::storage]
	pub type Codes<T: Config> = StorageMap<_, Identity, sp_core::H256, T::AccountId>;
	#[pallet::storage]
	pub type Contracts<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, sp_core::H256>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn call_old_weight(origin: OriginFor<T>, dest: LookupOf<T>, #[pallet::compact] value: u128, #[pallet::compact] gas_limit: u64, storage_deposit_limit: Option<codec::Compact<u128>>, data: Vec<u8>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (dest, value, gas_limit, storage_deposit_limit, data,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn instantiate_with_code_old_weight(origin: OriginFor<T>, #[pallet::compact] value: u128, #[pallet::compact] gas_limit: u64, storage_deposit_limit: Option<codec::Compact<u128>>, code: Vec<u8>, data: Vec<u8>, salt: Vec<u8>) -> DispatchResult {
			T::UploadOrigin::ensure_origin(origin.clone())?;
			T::InstantiateOrigin::ensure_origin(origin)?;
			let _ = (value, gas_limit, storage_deposit_limit, code, data, salt,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn instantiate_old_weight(origin: OriginFor<T>, #[pallet::compact] value: u128, #[pallet::compact] gas_limit: u64, storage_deposit_limit: Option<codec::Compact<u128>>, code_hash: sp_core::H256, data: Vec<u8>, salt: Vec<u8>) -> DispatchResult {
			T::InstantiateOrigin::ensure_origin(origin)?;
			let _ = (value, gas_limit, storage_deposit_limit, code_hash, data, salt,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn upload_code(origin: OriginFor<T>, code: Vec<u8>, storage_deposit_limit: Option<codec::Compact<u128>>, determinism: u8) -> DispatchResult {
			let who = T::UploadOrigin::ensure_origin(origin)?;
			let _ = (storage_deposit_limit, determinism);
			let code_hash = sp_core::H256(sp_io::hashing::blake2_256(&code));
			Codes::<T>::insert(code_hash, who.clone());
			Self::deposit_event(Event::CodeStored { code_hash, uploader: who });
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn remove_code(origin: OriginFor<T>, code_hash: sp_core::H256) -> DispatchResult {
			let who = ensure_signed(origin)?;
			ensure!(Codes::<T>::get(code_hash) == Some(who), DispatchError::BadOrigin);
			Codes::<T>::remove(code_hash);
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_code(origin: OriginFor<T>, dest: LookupOf<T>, code_hash: sp_core::H256) -> DispatchResult {
			ensure_root(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			ensure!(Contracts::<T>::contains_key(&dest), Error::<T>::ContractNotFound);
			Contracts::<T>::insert(dest, code_hash);
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn call(origin: OriginFor<T>, dest: LookupOf<T>, #[pallet::compact] value: u128, gas_limit: Weight, storage_deposit_limit: Option<codec::Compact<u128>>, data: Vec<u8>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			let _ = (gas_limit, storage_deposit_limit);
			ensure!(Contracts::<T>::contains_key(&dest), Error::<T>::ContractNotFound);
			if value > 0 {
				T::Currency::transfer(&who, &dest, value, frame_support::traits::tokens::Preservation::Preserve)?;
			}
			// the code of a contract here does what its caller asks for: it hands on the given call
			if !data.is_empty() {
				let call = <<T as Config>::RuntimeCall as Decode>::decode(&mut &data[..]).map_err(|_| Error::<T>::DecodingFailed)?;
				Self::call_runtime(&dest, call)?;
			}
			Ok(())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn instantiate_with_code(origin: OriginFor<T>, #[pallet::compact] value: u128, gas_limit: Weight, storage_deposit_limit: Option<codec::Compact<u128>>, code: Vec<u8>, data: Vec<u8>, salt: Vec<u8>) -> DispatchResult {
			let uploader = T::UploadOrigin::ensure_origin(origin.clone())?;
			let instantiator = T::InstantiateOrigin::ensure_origin(origin)?;
			let _ = (gas_limit, storage_deposit_limit);
			let code_hash = sp_core::H256(sp_io::hashing::blake2_256(&code));
			Codes::<T>::insert(code_hash, uploader);
			Self::do_instantiate(instantiator, value, code_hash, data, salt)
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn instantiate(origin: OriginFor<T>, #[pallet::compact] value: u128, gas_limit: Weight, storage_deposit_limit: Option<codec::Compact<u128>>, code_hash: sp_core::H256, data: Vec<u8>, salt: Vec<u8>) -> DispatchResult {
			let instantiator = T::InstantiateOrigin::ensure_origin(origin)?;
			let _ = (gas_limit, storage_deposit_limit);
			ensure!(Codes::<T>::contains_key(code_hash), Error::<T>::CodeNotFound);
			Self::do_instantiate(instantiator, value, code_hash, data, salt)
		}
		#[pallet::call_index(9)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn migrate(origin: OriginFor<T>, weight_limit: Weight) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (weight_limit,);
			Err(DispatchError::Other("not modelled"))
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn contract_address(deployer: &T::AccountId, code_hash: &sp_core::H256, data: &[u8], salt: &[u8]) -> T::AccountId {
			let entropy = (b"contract_addr_v1", deployer, code_hash, data, salt).using_encoded(sp_io::hashing::blake2_256);
			Decode::decode(&mut sp_runtime::traits::TrailingZeroInput::new(entropy.as_ref())).expect("infinite length input")
		}
		fn do_instantiate(deployer: T::AccountId, value: u128, code_hash: sp_core::H256, data: Vec<u8>, salt: Vec<u8>) -> DispatchResult {
			let contract = Self::contract_address(&deployer, &code_hash, &data, &salt);
			ensure!(!Contracts::<T>::contains_key(&contract), Error::<T>::DuplicateContract);
			Contracts::<T>::insert(&contract, code_hash);
			if value > 0 {
				T::Currency::transfer(&deployer, &contract, value, frame_support::traits::tokens::Preservation::Preserve)?;
			}
			Self::deposit_event(Event::Instantiated { deployer, contract });
			Ok(())
		}
		/// What a contract does when it calls into the chain.
		pub fn call_runtime(contract: &T::AccountId, call: <T as Config>::RuntimeCall) -> DispatchResult {
			let mut origin: T::RuntimeOrigin = RawOrigin::Signed(contract.clone()).into();
			origin.add_filter(|c: &<T as frame_system::Config>::RuntimeCall| T::CallFilter::contains(c));
			call.dispatch(origin).map(|_| ()).map_err(|e| e.error)
		}
	}
}

pub struct Limits {
	pub event_topics: u32,
	pub memory_pages: u32,
	pub subject_len: u32,
	pub payload_len: u32,
	pub runtime_memory: u32,
	pub validator_runtime_memory: u32,
	pub event_ref_time: u64,
}
impl Default for Limits {
	fn default() -> Self {
		Limits { event_topics: 4, memory_pages: 16, subject_len: 32, payload_len: 16 * 1024, runtime_memory: 1 << 27, validator_runtime_memory: 1 << 29, event_ref_time: 60_000 }
	}
}
pub struct Schedule<T: Config> {
	pub limits: Limits,
	pub phantom: core::marker::PhantomData<T>,
}
impl<T: Config> Default for Schedule<T> {
	fn default() -> Self {
		Schedule { limits: Default::default(), phantom: core::marker::PhantomData }
	}
}
pub struct Frame<T: Config>(core::marker::PhantomData<T>);
pub struct DefaultAddressGenerator;
