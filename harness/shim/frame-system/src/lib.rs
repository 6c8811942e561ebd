//! Stand-in for frame-system: block number, events, accounts and origins.
extern crate self as frame_system;

use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, Get, OnKilledAccount, OnNewAccount, OriginTrait, StoredMap, TypedGet, SortedMembers, HandleLifetime};
use scale_info::TypeInfo;
use sp_runtime::traits::{BadOrigin, One, Saturating, Zero};
use sp_runtime::{DispatchError, Either};
use std::marker::PhantomData;

pub use frame_support::dispatch::RawOrigin;
pub use pallet::*;

pub mod limits {
	use frame_support::{dispatch::DispatchClass, weights::Weight};
	use sp_runtime::Perbill;
	#[derive(Clone, Debug, Default)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	/// The bounds of a block, which transactions are weighed against.
	#[derive(Clone, Debug, Default)]
	pub struct BlockWeights {
		pub max_block: Weight,
		pub base_block: Weight,
		pub per_class: [WeightsPerClass; 3],
	}
	impl BlockWeights {
		pub fn builder() -> BlockWeightsBuilder {
			let mut weights = BlockWeights::default();
			for c in [DispatchClass::Normal, DispatchClass::Operational] {
				weights.per_class[c as usize].max_total = Some(Weight::zero());
				weights.per_class[c as usize].reserved = Some(Weight::zero());
			}
			BlockWeightsBuilder { weights, init: None }
		}
		pub fn get(&self, class: DispatchClass) -> &WeightsPerClass {
			&self.per_class[class as usize]
		}
	}
	pub trait Classes {
		fn list(self) -> Vec<DispatchClass>;
	}
	impl Classes for DispatchClass {
		fn list(self) -> Vec<DispatchClass> {
			vec![self]
		}
	}
	impl Classes for &'static [DispatchClass] {
		fn list(self) -> Vec<DispatchClass> {
			self.to_vec()
		}
	}
	pub struct BlockWeightsBuilder {
		weights: BlockWeights,
		init: Option<Perbill>,
	}
	impl BlockWeightsBuilder {
		pub fn base_block(mut self, w: Weight) -> Self {
			self.weights.base_block = w;
			self
		}
		pub fn avg_block_initialization(mut self, p: Perbill) -> Self {
			self.init = Some(p);
			self
		}
		pub fn for_class(mut self, class: impl Classes, f: impl Fn(&mut WeightsPerClass)) -> Self {
			for c in class.list() {
				f(&mut self.weights.per_class[c as usize]);
			}
			self
		}
		pub fn build_or_panic(self) -> BlockWeights {
			let mut w = self.weights;
			for c in &w.per_class {
				w.max_block = w.max_block.max(c.max_total.unwrap_or_default());
			}
			if let Some(rate) = self.init {
				let init = Weight::from_parts(rate * w.max_block.ref_time(), rate * w.max_block.proof_size());
				for c in &mut w.per_class {
					if c.max_extrinsic.is_none() {
						c.max_extrinsic = c.max_total.map(|x| x.saturating_sub(init).saturating_sub(c.base_extrinsic));
					}
				}
			}
			w
		}
	}
	#[derive(Clone, Debug, Default)]
	pub struct BlockLength {
		pub max: [u32; 3],
	}
	impl BlockLength {
		pub fn max_with_normal_ratio(max: u32, normal: Perbill) -> Self {
			BlockLength { max: [normal * max, max, max] }
		}
	}
}
pub struct ChainContext<T>(PhantomData<T>);
pub mod mocking {
	use sp_runtime::{generic, traits::BlakeTwo256};
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct MockUncheckedExtrinsic<T>(std::marker::PhantomData<T>);
	pub type MockBlock<T> = generic::Block<generic::Header<u64, BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU128<T> = generic::Block<generic::Header<u128, BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
pub mod weights {
	pub trait WeightInfo {}
	impl WeightInfo for () {}
}
pub use weights::WeightInfo;

pub type RefCount = u32;
pub type ConsumerCount = u32;

#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone, TypeInfo)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone, TypeInfo)]
pub struct EventRecord<E, T> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<T>,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}

pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type BlockNumberFor<T> = sp_runtime::traits::NumberFor<<T as crate::Config>::Block>;
	pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
}
use pallet_prelude::BlockNumberFor;

pub mod config_preludes {}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use crate::{self as frame_system, pallet_prelude::*};
	use frame_support::pallet_prelude::*;
	use frame_support::dispatch::DispatchResultWithPostInfo;
	use sp_runtime::traits::{self, AtLeast32Bit, Dispatchable, StaticLookup};

	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + core::fmt::Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type BaseCallFilter: frame_support::traits::Contains<Self::RuntimeCall>;
		type BlockWeights;
		type BlockLength;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + core::fmt::Debug + From<Call<Self>>;
		type RuntimeTask;
		type Nonce: Parameter + Member + Default + AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + core::fmt::Debug + Ord + Copy + core::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen + Default + core::fmt::Display;
		type Hashing: traits::Hash<Output = Self::Hash>;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + core::fmt::Debug + Ord + MaxEncodedLen + core::fmt::Display;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		type Block: Parameter + Member + traits::Block<Hash = Self::Hash>;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
		type Version;
		type PalletInfo: frame_support::traits::PalletInfo;
		type AccountData: Member + codec::FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type SS58Prefix;
		type OnSetCode;
		type MaxConsumers: Get<u32>;
		type SingleBlockMigrations;
		type MultiBlockMigrator;
		type PreInherents;
		type PostInherents;
		type PostTransactions;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess,
		ExtrinsicFailed { dispatch_error: DispatchError },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
	}
	#[pallet::origin]
	pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicIndex<T: Config> = StorageValue<_, u32>;
	/// used by transactions of each class in this block
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, [Weight; 3], ValueQuery>;
	#[pallet::storage]
	pub type AllExtrinsicsLen<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;

	#[derive(frame_support::DefaultNoBound)]
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub _config: PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000 + remark.len() as u64, 0))]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = remark;
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::from_parts(100_000, 0), DispatchClass::Operational))]
		pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			sp_io::storage::set(b":code", &code);
			Self::deposit_event(Event::CodeUpdated);
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::from_parts(10_000, 0), DispatchClass::Operational))]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for (k, v) in &items {
				sp_io::storage::set(k, v);
			}
			Ok(().into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight((Weight::from_parts(10_000, 0), DispatchClass::Operational))]
		pub fn kill_storage(origin: OriginFor<T>, keys: Vec<Vec<u8>>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for k in &keys {
				sp_io::storage::clear(k);
			}
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(2_000 + remark.len() as u64, 0))]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let hash = <T::Hashing as traits::Hash>::hash(&remark[..]);
			Self::deposit_event(Event::Remarked { sender: who, hash });
			Ok(().into())
		}
	}
}

impl<T: Config> Pallet<T> {
	pub fn block_number() -> BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn block_hash(n: impl codec::EncodeLike<BlockNumberFor<T>>) -> T::Hash {
		BlockHash::<T>::get(n)
	}
	pub fn parent_hash() -> T::Hash {
		ParentHash::<T>::get()
	}
	pub fn set_parent_hash(h: T::Hash) {
		ParentHash::<T>::put(h)
	}
	pub fn extrinsic_index() -> Option<u32> {
		ExtrinsicIndex::<T>::get()
	}
	pub fn set_extrinsic_index(i: u32) {
		ExtrinsicIndex::<T>::put(i)
	}
	pub fn runtime_version() {}
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		// as upstream, nothing is recorded before the first block
		if Self::block_number().is_zero() {
			return;
		}
		let phase = Phase::ApplyExtrinsic(Self::extrinsic_index().unwrap_or_default());
		let event = event.into();
		Events::<T>::mutate(|l| l.push(EventRecord { phase, event, topics: Vec::new() }));
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		Events::<T>::get()
	}
	pub fn event_count() -> u32 {
		Events::<T>::get().len() as u32
	}
	pub fn read_events_for_pallet<E>() -> Vec<E>
	where
		T::RuntimeEvent: TryInto<E>,
	{
		Self::events().into_iter().filter_map(|e| e.event.try_into().ok()).collect()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Events::<T>::get().into_iter().map(Box::new)
	}
	pub fn reset_events() {
		Events::<T>::kill();
	}
	pub fn assert_has_event(event: T::RuntimeEvent) {
		assert!(Self::events().iter().any(|r| r.event == event), "expected event {event:?} not found in {:?}", Self::events());
	}
	pub fn assert_last_event(event: T::RuntimeEvent) {
		assert_eq!(Self::events().last().expect("events expected").event, event);
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	pub fn account_nonce(who: impl codec::EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	pub fn inc_account_nonce(who: impl codec::EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one());
	}
	fn on_created_account(who: T::AccountId) {
		T::OnNewAccount::on_new_account(&who);
		Self::deposit_event(Event::NewAccount { account: who });
	}
	fn on_killed_account(who: T::AccountId) {
		T::OnKilledAccount::on_killed_account(&who);
		Self::deposit_event(Event::KilledAccount { account: who });
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 {
				a.providers = 1;
				Self::on_created_account(who.clone());
				IncRefStatus::Created
			} else {
				a.providers = a.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |maybe_account| {
			if let Some(mut account) = maybe_account.take() {
				if account.providers == 0 {
					account.providers = 1;
				}
				match (account.providers, account.consumers, account.sufficients) {
					(1, 0, 0) => {
						Pallet::<T>::on_killed_account(who.clone());
						Ok(DecRefStatus::Reaped)
					}
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => {
						account.providers = x - 1;
						*maybe_account = Some(account);
						Ok(DecRefStatus::Exists)
					}
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 {
				a.sufficients = 1;
				Self::on_created_account(who.clone());
				IncRefStatus::Created
			} else {
				a.sufficients = a.sufficients.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(who, |maybe_account| {
			if let Some(mut account) = maybe_account.take() {
				match (account.sufficients, account.providers) {
					(0, 0) | (1, 0) => {
						Pallet::<T>::on_killed_account(who.clone());
						DecRefStatus::Reaped
					}
					(x, _) => {
						account.sufficients = x.saturating_sub(1);
						*maybe_account = Some(account);
						DecRefStatus::Exists
					}
				}
			} else {
				DecRefStatus::Reaped
			}
		})
	}
	pub fn providers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).providers
	}
	pub fn sufficients(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).sufficients
	}
	pub fn consumers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).consumers
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				if a.consumers < T::MaxConsumers::get() {
					a.consumers = a.consumers.saturating_add(1);
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				a.consumers = a.consumers.saturating_add(1);
				Ok(())
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| {
			if a.consumers > 0 {
				a.consumers -= 1;
			}
		})
	}
	pub fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.consumers == 0 || a.providers > 1
	}
	pub fn can_inc_consumer(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.providers > 0 && a.consumers < T::MaxConsumers::get()
	}
	pub fn can_accrue_consumers(who: &T::AccountId, amount: u32) -> bool {
		let a = Account::<T>::get(who);
		match a.consumers.checked_add(amount) {
			Some(c) => a.providers > 0 && c <= T::MaxConsumers::get(),
			None => false,
		}
	}
	pub fn initialize(number: &BlockNumberFor<T>, parent_hash: &T::Hash, _digest: &()) {
		ExtrinsicIndex::<T>::put(0u32);
		Number::<T>::put(*number);
		ParentHash::<T>::put(*parent_hash);
		BlockHash::<T>::insert(number.saturating_sub(One::one()), *parent_hash);
		BlockWeight::<T>::kill();
		AllExtrinsicsLen::<T>::kill();
	}
}

impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn insert(k: &T::AccountId, data: T::AccountData) -> Result<(), DispatchError> {
		Self::mutate_exists(k, |x| *x = Some(data))
	}
	fn remove(k: &T::AccountId) -> Result<(), DispatchError> {
		Self::mutate_exists(k, |x| *x = None)
	}
	fn mutate_exists<R>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> R) -> Result<R, DispatchError> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some_data = if is_default { None } else { Some(account.data) };
		let r = f(&mut some_data);
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
			Account::<T>::mutate(k, |a| a.data = some_data.unwrap_or_default());
		}
		Ok(r)
	}
}

// ---------------------------------------------------------------- origins

pub fn ensure_signed<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<AccountId, BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<Option<AccountId>, BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<(), BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<(), BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}

macro_rules! with_arg {
	([ $($g:tt)* ] $t:ty) => {
		impl<$($g)*, A> EnsureOriginWithArg<O, A> for $t where $t: EnsureOrigin<O> {
			type Success = <$t as EnsureOrigin<O>>::Success;
			fn try_origin(o: O, _: &A) -> Result<Self::Success, O> { <$t as EnsureOrigin<O>>::try_origin(o) }
		}
	};
}

pub struct EnsureRoot<AccountId>(PhantomData<AccountId>);
impl<O: OriginTrait, AccountId> EnsureOrigin<O> for EnsureRoot<AccountId> {
	type Success = ();
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match o.as_system_ref() {
			Some(RawOrigin::Root) => Ok(()),
			_ => Err(o),
		}
	}
}
with_arg!([O: OriginTrait, AccountId] EnsureRoot<AccountId>);
pub struct EnsureRootWithSuccess<AccountId, Success>(PhantomData<(AccountId, Success)>);
impl<O: OriginTrait, AccountId, Success: TypedGet> EnsureOrigin<O> for EnsureRootWithSuccess<AccountId, Success> {
	type Success = Success::Type;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match o.as_system_ref() {
			Some(RawOrigin::Root) => Ok(Success::get()),
			_ => Err(o),
		}
	}
}
with_arg!([O: OriginTrait, AccountId, S: TypedGet] EnsureRootWithSuccess<AccountId, S>);
pub struct EnsureWithSuccess<Ensure, AccountId, Success>(PhantomData<(Ensure, AccountId, Success)>);
impl<O: OriginTrait, Ensure: EnsureOrigin<O>, AccountId, Success: TypedGet> EnsureOrigin<O> for EnsureWithSuccess<Ensure, AccountId, Success> {
	type Success = Success::Type;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		Ensure::try_origin(o).map(|_| Success::get())
	}
}
pub struct EnsureSigned<AccountId>(PhantomData<AccountId>);
impl<O: OriginTrait<AccountId = AccountId>, AccountId: Clone> EnsureOrigin<O> for EnsureSigned<AccountId> {
	type Success = AccountId;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match o.as_system_ref() {
			Some(RawOrigin::Signed(who)) => Ok(who.clone()),
			_ => Err(o),
		}
	}
}
with_arg!([O: OriginTrait<AccountId = AccountId>, AccountId: Clone] EnsureSigned<AccountId>);
pub struct EnsureSignedBy<Who, AccountId>(PhantomData<(Who, AccountId)>);
impl<O: OriginTrait<AccountId = AccountId>, Who: SortedMembers<AccountId>, AccountId: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<Who, AccountId> {
	type Success = AccountId;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match o.as_system_ref() {
			Some(RawOrigin::Signed(ref who)) if Who::contains(who) => Ok(who.clone()),
			_ => Err(o),
		}
	}
}
pub struct EnsureNone<AccountId>(PhantomData<AccountId>);
impl<O: OriginTrait, AccountId> EnsureOrigin<O> for EnsureNone<AccountId> {
	type Success = ();
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match o.as_system_ref() {
			Some(RawOrigin::None) => Ok(()),
			_ => Err(o),
		}
	}
}
pub struct EnsureNever<Success>(PhantomData<Success>);
impl<O, Success> EnsureOrigin<O> for EnsureNever<Success> {
	type Success = Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		Err(o)
	}
}
with_arg!([O, Success] EnsureNever<Success>);

pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> {
	fn created(t: &T::AccountId) -> Result<(), DispatchError> {
		Pallet::<T>::inc_providers(t);
		Ok(())
	}
	fn killed(t: &T::AccountId) -> Result<(), DispatchError> {
		Pallet::<T>::dec_providers(t).map(|_| ())
	}
}
pub struct Consumer<T>(PhantomData<T>);

impl<T: Config> sp_runtime::traits::BlockNumberProvider for Pallet<T> {
	type BlockNumber = BlockNumberFor<T>;
	fn current_block_number() -> Self::BlockNumber {
		Pallet::<T>::block_number()
	}
}
pub mod offchain {
	pub trait SendTransactionTypes<LocalCall> {}
}
#[allow(unused)]
type _E = Either<(), ()>;
use frame_support::dispatch::{DispatchClass, DispatchInfo, PostDispatchInfo, SignedExtension, Terms};
use sp_runtime::traits::{SaturatedConversion, Zero as _};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
impl<T: Config> Pallet<T> {
	pub fn note_applied_extrinsic(r: Result<(), DispatchError>) {
		Self::deposit_event(match r {
			Ok(()) => Event::<T>::ExtrinsicSuccess,
			Err(dispatch_error) => Event::ExtrinsicFailed { dispatch_error },
		});
		ExtrinsicIndex::<T>::mutate(|i| *i = Some(i.unwrap_or_default() + 1));
	}
}
// what sender and chain must agree on
macro_rules! agreed {
	($n:ident [$($bound:tt)*] $t:ident => $sent:expr, $known:expr) => {
		#[derive(Encode, Decode)]
		pub struct $n<T>(PhantomData<T>);
		impl<T: Config> SignedExtension<T::AccountId, T::RuntimeCall> for $n<T> where $($bound)* {
			type Pre = ();
			fn terms(_: &Terms) -> Self {
				Self(PhantomData)
			}
			fn believed($t: &Terms) -> Vec<u8> {
				$sent
			}
			fn additional_signed(&self) -> Result<Vec<u8>, TransactionValidityError> {
				Ok($known)
			}
			fn pre_dispatch(self, _: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), TransactionValidityError> {
				Ok(())
			}
		}
	};
}
agreed!(CheckSpecVersion [T::Version: Get<sp_version::RuntimeVersion>] t => t.spec_version.encode(), <T::Version as Get<sp_version::RuntimeVersion>>::get().spec_version.encode());
agreed!(CheckTxVersion [T::Version: Get<sp_version::RuntimeVersion>] t => t.transaction_version.encode(), <T::Version as Get<sp_version::RuntimeVersion>>::get().transaction_version.encode());
agreed!(CheckGenesis [] t => t.genesis.clone(), Pallet::<T>::block_hash(BlockNumberFor::<T>::zero()).encode());

#[derive(Encode, Decode)]
pub struct CheckNonZeroSender<T>(PhantomData<T>);
impl<T: Config> SignedExtension<T::AccountId, T::RuntimeCall> for CheckNonZeroSender<T> {
	type Pre = ();
	fn terms(_: &Terms) -> Self {
		Self(PhantomData)
	}
	fn pre_dispatch(self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), TransactionValidityError> {
		if who.using_encoded(|d| d.iter().all(|x| *x == 0)) {
			return Err(InvalidTransaction::BadSigner.into());
		}
		Ok(())
	}
}
#[derive(Encode, Decode)]
pub struct CheckMortality<T>(sp_runtime::generic::Era, PhantomData<T>);
pub type CheckEra<T> = CheckMortality<T>;
impl<T: Config> SignedExtension<T::AccountId, T::RuntimeCall> for CheckMortality<T> {
	type Pre = ();
	fn terms(t: &Terms) -> Self {
		Self(t.era, PhantomData)
	}
	fn believed(t: &Terms) -> Vec<u8> {
		t.birth.clone()
	}
	fn additional_signed(&self) -> Result<Vec<u8>, TransactionValidityError> {
		let now: u64 = Pallet::<T>::block_number().saturated_into();
		let birth: BlockNumberFor<T> = self.0.birth(now).saturated_into();
		if !BlockHash::<T>::contains_key(birth) {
			return Err(InvalidTransaction::AncientBirthBlock.into());
		}
		Ok(Pallet::<T>::block_hash(birth).encode())
	}
	fn pre_dispatch(self, _: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), TransactionValidityError> {
		Ok(())
	}
}
#[derive(Encode, Decode)]
pub struct CheckNonce<T>(u32, PhantomData<T>);
impl<T: Config> SignedExtension<T::AccountId, T::RuntimeCall> for CheckNonce<T> {
	type Pre = ();
	fn terms(t: &Terms) -> Self {
		Self(t.nonce, PhantomData)
	}
	fn pre_dispatch(self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), TransactionValidityError> {
		let mut account = Account::<T>::get(who);
		// nobody paid for keeping its nonce
		if account.providers.is_zero() && account.sufficients.is_zero() {
			return Err(InvalidTransaction::Payment.into());
		}
		let said: T::Nonce = self.0.into();
		if said != account.nonce {
			return Err(if said < account.nonce { InvalidTransaction::Stale } else { InvalidTransaction::Future }.into());
		}
		account.nonce += T::Nonce::one();
		Account::<T>::insert(who, account);
		Ok(())
	}
}
#[derive(Encode, Decode)]
pub struct CheckWeight<T>(PhantomData<T>);
impl<T: Config> SignedExtension<T::AccountId, T::RuntimeCall> for CheckWeight<T>
where
	T::BlockWeights: Get<limits::BlockWeights>,
	T::BlockLength: Get<limits::BlockLength>,
{
	type Pre = ();
	fn terms(_: &Terms) -> Self {
		Self(PhantomData)
	}
	fn pre_dispatch(self, _: &T::AccountId, _: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		let full = || TransactionValidityError::Invalid(InvalidTransaction::ExhaustsResources);
		if info.class == DispatchClass::Mandatory {
			return Err(InvalidTransaction::MandatoryValidation.into());
		}
		let length = AllExtrinsicsLen::<T>::get().saturating_add(len as u32);
		if length > <T::BlockLength as Get<limits::BlockLength>>::get().max[info.class as usize] {
			return Err(full());
		}
		let most = <T::BlockWeights as Get<limits::BlockWeights>>::get();
		let class = most.get(info.class);
		if class.max_extrinsic.is_some_and(|m| info.weight.any_gt(m)) {
			return Err(full());
		}
		let mut used = BlockWeight::<T>::get();
		let mine = &mut used[info.class as usize];
		*mine = mine.saturating_add(info.weight).saturating_add(class.base_extrinsic);
		let mine = *mine;
		if class.max_total.is_some_and(|m| mine.any_gt(m)) {
			return Err(full());
		}
		let total = used[0].saturating_add(used[1]).saturating_add(used[2]);
		if total.any_gt(most.max_block) && class.reserved.is_some_and(|r| mine.any_gt(r)) {
			return Err(full());
		}
		AllExtrinsicsLen::<T>::put(length);
		BlockWeight::<T>::put(used);
		Ok(())
	}
	fn post_dispatch(_: (), info: &DispatchInfo, post: &PostDispatchInfo, _: usize) -> Result<(), TransactionValidityError> {
		let unspent = info.weight.saturating_sub(post.actual_weight.map_or(info.weight, |w| w.min(info.weight)));
		BlockWeight::<T>::mutate(|u| u[info.class as usize] = u[info.class as usize].saturating_sub(unspent));
		Ok(())
	}
}
