use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::marker::PhantomData;


pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
}
impl PalletInfo for () {
	fn index<P: 'static>() -> Option<usize> {
		Some(0)
	}
	fn name<P: 'static>() -> Option<&'static str> {
		Some("test")
	}
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn name_hash() -> [u8; 16];
	fn module_name() -> &'static str;
}
pub trait PalletsInfoAccess {}
#[derive(Debug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
	fn key<P: PalletInfoAccess>() -> [u8; 32] {
		crate::storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:")
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		crate::storage::unhashed::put(&Self::key::<P>(), self)
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		crate::storage::unhashed::get(&Self::key::<P>()).unwrap_or_default()
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(o)
	}
}
pub trait GetStorageVersion {}
pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
	fn prefix_hash() -> [u8; 32] {
		crate::storage::storage_prefix(Self::pallet_prefix().as_bytes(), Self::STORAGE_PREFIX.as_bytes())
	}
}
pub struct StorageInfo;
pub trait StorageInfoTrait {
	fn storage_info() -> Vec<StorageInfo> {
		vec![]
	}
}

pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
impl VariantCount for () {
	const VARIANT_COUNT: u32 = 0;
}
pub struct VariantCountOf<T>(PhantomData<T>);
impl<T: VariantCount> super::Get<u32> for VariantCountOf<T> {
	fn get() -> u32 {
		T::VARIANT_COUNT
	}
}

pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}

pub trait Incrementable: Sized {
	fn increment(&self) -> Option<Self>;
	fn initial_value() -> Option<Self>;
}
macro_rules! inc { ($($t:ty),*) => { $( impl Incrementable for $t {
	fn increment(&self) -> Option<Self> { self.checked_add(1) }
	fn initial_value() -> Option<Self> { Some(0) }
} )* } }
inc!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

pub trait HandleLifetime<T> {
	fn created(_t: &T) -> Result<(), sp_runtime::DispatchError> {
		Ok(())
	}
	fn killed(_t: &T) -> Result<(), sp_runtime::DispatchError> {
		Ok(())
	}
}
impl<T> HandleLifetime<T> for () {}
pub trait OnNewAccount<AccountId> {
	fn on_new_account(who: &AccountId);
}
impl<A> OnNewAccount<A> for () {
	fn on_new_account(_: &A) {}
}
pub trait OnKilledAccount<AccountId> {
	fn on_killed_account(who: &AccountId);
}
impl<A> OnKilledAccount<A> for () {
	fn on_killed_account(_: &A) {}
}
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn insert(k: &K, t: T) -> Result<(), sp_runtime::DispatchError>;
	fn remove(k: &K) -> Result<(), sp_runtime::DispatchError>;
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, sp_runtime::DispatchError>;
}

pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait UnixTime {
	fn now() -> core::time::Duration;
}
pub trait Randomness<Output, BlockNumber> {
	fn random(subject: &[u8]) -> (Output, BlockNumber);
	fn random_seed() -> (Output, BlockNumber) {
		Self::random(&[][..])
	}
}
impl<Output: Decode + Default, BlockNumber: Default> Randomness<Output, BlockNumber> for () {
	fn random(subject: &[u8]) -> (Output, BlockNumber) {
		(Output::decode(&mut sp_runtime::traits::TrailingZeroInput::new(subject)).unwrap_or_default(), Default::default())
	}
}
pub trait FindAuthor<A> {
	fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(digests: I) -> Option<A>;
}
pub trait EstimateNextSessionRotation<B> {}
pub trait ValidatorSet<A> {}
pub trait DisabledValidators {}
pub trait Footprintable {}

/// A cost footprint.
#[derive(Clone, Copy, Eq, PartialEq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Footprint {
	pub count: u64,
	pub size: u64,
}
pub trait Consideration<AccountId, Footprint> {}
impl<A, F> Consideration<A, F> for () {}
pub struct HoldConsideration<A, F, R, D, Fp = Footprint>(PhantomData<(A, F, R, D, Fp)>);
impl<A, F, R, D, Fp> Consideration<A, Fp> for HoldConsideration<A, F, R, D, Fp> {}
pub struct FreezeConsideration<A, F, R, D, Fp = Footprint>(PhantomData<(A, F, R, D, Fp)>);
pub struct LinearStoragePrice<Base, Slope, Balance>(PhantomData<(Base, Slope, Balance)>);
pub struct ConstantStoragePrice<P, B>(PhantomData<(P, B)>);

pub trait EnqueueMessage<Origin> {}
pub struct EnqueueWithOrigin<E, O>(PhantomData<(E, O)>);
pub struct TransformOrigin<E, O, N, C>(PhantomData<(E, O, N, C)>);
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum ProcessMessageError {
	BadFormat,
	Corrupt,
	Unsupported,
	Overweight(sp_weights::Weight),
	Yield,
	StackLimitReached,
}
pub trait ProcessMessage {
	type Origin;
	fn process_message(
		message: &[u8],
		origin: Self::Origin,
		limit: sp_weights::Weight,
		id: &mut [u8; 32],
	) -> Result<bool, ProcessMessageError>;
}
pub struct SameOrOther;
pub trait Currency_ {}

// as in production builds: nothing but a log line upstream
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E>;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.map_or_else(default, f)
	}
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E> {
		self.ok_or(err)
	}
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E> {
		self.ok_or_else(err)
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> {
		self.map(f)
	}
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T, E> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> {
		self.map_err(o)
	}
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.map_or_else(default, f)
	}
	fn defensive_ok(self) -> Option<T> {
		self.ok()
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> {
		self.map(f)
	}
}
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, other: T) -> T;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &str) -> Self;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.unwrap_or(other)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.unwrap_or_else(f)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &str) -> Self {
		self
	}
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.unwrap_or(other)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.unwrap_or_else(|_| f())
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &str) -> Self {
		self
	}
}
pub trait DefensiveSaturating: sp_arithmetic::traits::Saturating + Copy {
	fn defensive_saturating_add(self, other: Self) -> Self {
		self.saturating_add(other)
	}
	fn defensive_saturating_sub(self, other: Self) -> Self {
		self.saturating_sub(other)
	}
	fn defensive_saturating_mul(self, other: Self) -> Self {
		self.saturating_mul(other)
	}
	fn defensive_saturating_accrue(&mut self, other: Self) {
		*self = self.saturating_add(other)
	}
	fn defensive_saturating_reduce(&mut self, other: Self) {
		*self = self.saturating_sub(other)
	}
}
impl<T: sp_arithmetic::traits::Saturating + Copy> DefensiveSaturating for T {}
pub trait Len {
	fn len(&self) -> usize;
}
impl<T: IntoIterator + Clone> Len for T
where
	<T as IntoIterator>::IntoIter: ExactSizeIterator,
{
	fn len(&self) -> usize {
		self.clone().into_iter().len()
	}
}
pub trait TryDrop: Sized {
	fn try_drop(self) -> Result<(), Self>;
}
impl TryDrop for () {
	fn try_drop(self) -> Result<(), Self> {
		Ok(())
	}
}
pub trait ConstU32Get {}
pub struct WithdrawReasonsFilter;
pub trait PalletError {
	const MAX_ENCODED_SIZE: usize;
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
pub struct TryDropTest;
pub trait AccountTouch<AssetId, AccountId> {}
pub trait WhitelistedStorageKeys {}
pub trait CallerTraitMarker {}
pub struct NoDrop<T>(PhantomData<T>);
