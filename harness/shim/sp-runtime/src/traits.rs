//! Traits of sp-runtime.
pub use sp_arithmetic::traits::*;
pub use sp_core::{Get, Hasher, TypedGet};
use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use std::fmt::{Debug, Display};
use std::marker::PhantomData;

pub trait MaybeDisplay {}
impl<T> MaybeDisplay for T {}
pub trait MaybeSerializeDeserialize {}
impl<T> MaybeSerializeDeserialize for T {}
pub trait MaybeSerialize {}
impl<T> MaybeSerialize for T {}
pub trait MaybeHash {}
impl<T> MaybeHash for T {}
pub trait MaybeEquivalence<A, B> {
	fn convert(a: &A) -> Option<B>;
	fn convert_back(b: &B) -> Option<A>;
}
#[impl_trait_for_tuples::impl_for_tuples(30)]
impl<A, B> MaybeEquivalence<A, B> for Tuple {
	fn convert(a: &A) -> Option<B> {
		for_tuples!( #( match Tuple::convert(a) { Some(b) => return Some(b), None => {} } )* );
		None
	}
	fn convert_back(b: &B) -> Option<A> {
		for_tuples!( #( match Tuple::convert_back(b) { Some(a) => return Some(a), None => {} } )* );
		None
	}
}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}

pub trait Printable {
	fn print(&self) {}
}
impl Printable for () {}
impl Printable for &str {}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub struct BadOrigin;
impl From<BadOrigin> for &'static str {
	fn from(_: BadOrigin) -> Self {
		"Bad origin"
	}
}
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub struct LookupError;
impl From<LookupError> for &'static str {
	fn from(_: LookupError) -> Self {
		"Can not lookup"
	}
}

pub trait Lazy<T: ?Sized> {
	fn get(&mut self) -> &T;
}
impl<'a> Lazy<[u8]> for &'a [u8] {
	fn get(&mut self) -> &[u8] {
		self
	}
}
pub trait IdentifyAccount {
	type AccountId;
	fn into_account(self) -> Self::AccountId;
}
pub trait Verify {
	type Signer: IdentifyAccount;
	fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
}

pub trait StaticLookup {
	type Source: Codec + Clone + PartialEq + Debug + scale_info::TypeInfo + EncodeLike;
	type Target;
	fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
	fn unlookup(t: Self::Target) -> Self::Source;
}
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct IdentityLookup<T>(PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + scale_info::TypeInfo + EncodeLike> StaticLookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(x: T) -> Result<T, LookupError> {
		Ok(x)
	}
	fn unlookup(x: T) -> T {
		x
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct AccountIdLookup<AccountId, AccountIndex>(PhantomData<(AccountId, AccountIndex)>);
impl<AccountId, AccountIndex> StaticLookup for AccountIdLookup<AccountId, AccountIndex>
where
	AccountId: Codec + Clone + PartialEq + Debug,
	AccountIndex: Codec + Clone + PartialEq + Debug,
	crate::MultiAddress<AccountId, AccountIndex>: Codec + scale_info::TypeInfo + EncodeLike,
{
	type Source = crate::MultiAddress<AccountId, AccountIndex>;
	type Target = AccountId;
	fn lookup(x: Self::Source) -> Result<AccountId, LookupError> {
		match x {
			crate::MultiAddress::Id(i) => Ok(i),
			_ => Err(LookupError),
		}
	}
	fn unlookup(x: AccountId) -> Self::Source {
		crate::MultiAddress::Id(x)
	}
}

// ------------------------------------------------------------ conversions

pub trait Convert<A, B> {
	fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () {
	fn convert(_: A) -> B {
		Default::default()
	}
}
pub trait ConvertBack<A, B>: Convert<A, B> {
	fn convert_back(b: B) -> A;
}
pub struct Identity;
impl<T> Convert<T, T> for Identity {
	fn convert(a: T) -> T {
		a
	}
}
impl<T> ConvertBack<T, T> for Identity {
	fn convert_back(a: T) -> T {
		a
	}
}
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
	fn convert(a: A) -> B {
		a.into()
	}
}
pub trait TryConvert<A, B> {
	fn try_convert(a: A) -> Result<B, A>;
}
#[impl_trait_for_tuples::impl_for_tuples(30)]
impl<A, B> TryConvert<A, B> for Tuple {
	fn try_convert(a: A) -> Result<B, A> {
		for_tuples!( #( let a = match Tuple::try_convert(a) { Ok(b) => return Ok(b), Err(a) => a }; )* );
		Err(a)
	}
}
pub struct TryConvertInto;
impl<A: Clone + TryInto<B>, B> TryConvert<A, B> for TryConvertInto {
	fn try_convert(a: A) -> Result<B, A> {
		a.clone().try_into().map_err(|_| a)
	}
}
pub trait TryConvertBack<A, B>: TryConvert<A, B> {
	fn try_convert_back(b: B) -> Result<A, B>;
}
pub trait Morph<A> {
	type Outcome;
	fn morph(a: A) -> Self::Outcome;
}
pub trait TryMorph<A> {
	type Outcome;
	fn try_morph(a: A) -> Result<Self::Outcome, ()>;
}
pub struct Replace<T>(PhantomData<T>);
impl<A, T: sp_core::TypedGet> Morph<A> for Replace<T> {
	type Outcome = T::Type;
	fn morph(_: A) -> T::Type {
		T::get()
	}
}
impl<A, T: sp_core::TypedGet> TryMorph<A> for Replace<T> {
	type Outcome = T::Type;
	fn try_morph(_: A) -> Result<T::Type, ()> {
		Ok(T::get())
	}
}
pub struct ReplaceWithDefault<T>(PhantomData<T>);
impl<A, T: Default> Morph<A> for ReplaceWithDefault<T> {
	type Outcome = T;
	fn morph(_: A) -> T {
		T::default()
	}
}
pub struct ReduceBy<N>(PhantomData<N>);
impl<N: sp_core::TypedGet> TryMorph<N::Type> for ReduceBy<N>
where
	N::Type: CheckedSub,
{
	type Outcome = N::Type;
	fn try_morph(r: N::Type) -> Result<N::Type, ()> {
		r.checked_sub(&N::get()).ok_or(())
	}
}
impl<N: sp_core::TypedGet> Morph<N::Type> for ReduceBy<N>
where
	N::Type: CheckedSub + Zero,
{
	type Outcome = N::Type;
	fn morph(r: N::Type) -> N::Type {
		r.checked_sub(&N::get()).unwrap_or(Zero::zero())
	}
}
pub struct TryMorphInto<T>(PhantomData<T>);
impl<T, A: TryInto<T>> TryMorph<A> for TryMorphInto<T> {
	type Outcome = T;
	fn try_morph(a: A) -> Result<T, ()> {
		a.try_into().map_err(|_| ())
	}
}
pub trait MaybeConvert<A, B> {
	fn maybe_convert(a: A) -> Option<B>;
}
pub trait MaybeConvertBack<A, B>: MaybeConvert<A, B> {
	fn maybe_convert_back(b: B) -> Option<A>;
}
pub trait Lookup {
	type Source;
	type Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
}
pub struct MorphInto<T>(PhantomData<T>);
impl<T, A: Into<T>> Morph<A> for MorphInto<T> {
	type Outcome = T;
	fn morph(a: A) -> T {
		a.into()
	}
}
pub trait CheckedConversion {
	fn checked_from<T>(t: T) -> Option<Self>
	where
		Self: TryFrom<T>,
	{
		<Self as TryFrom<T>>::try_from(t).ok()
	}
	fn checked_into<T>(self) -> Option<T>
	where
		Self: TryInto<T>,
	{
		<Self as TryInto<T>>::try_into(self).ok()
	}
}
impl<T> CheckedConversion for T {}

// ------------------------------------------------------------ hashing

pub trait Hash: 'static + Debug + Clone + Eq + PartialEq + Hasher<Out = <Self as Hash>::Output> {
	type Output: Member + Debug + Display + AsRef<[u8]> + AsMut<[u8]> + Copy + Default + Codec + EncodeLike + MaxEncodedLen + scale_info::TypeInfo + Ord + std::hash::Hash;
	fn hash(s: &[u8]) -> Self::Output {
		<Self as Hasher>::hash(s)
	}
	fn hash_of<S: Encode>(s: &S) -> Self::Output {
		Encode::using_encoded(s, <Self as Hasher>::hash)
	}
}
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, scale_info::TypeInfo)]
pub struct BlakeTwo256;
impl Hasher for BlakeTwo256 {
	type Out = sp_core::H256;
	const LENGTH: usize = 32;
	fn hash(x: &[u8]) -> sp_core::H256 {
		sp_core::blake2_256(x).into()
	}
}
impl Hash for BlakeTwo256 {
	type Output = sp_core::H256;
}
pub trait HashOutput: Member + AsRef<[u8]> + Copy + Default + Codec + MaxEncodedLen + scale_info::TypeInfo + EncodeLike {}
impl<T: Member + AsRef<[u8]> + Copy + Default + Codec + MaxEncodedLen + scale_info::TypeInfo + EncodeLike> HashOutput for T {}

// ------------------------------------------------------------ account ids

pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Self(data)
	}
	pub fn zeroes() -> Self {
		Self(&[][..])
	}
}
impl<'a> codec::Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> {
		let len_from_inner = into.len().min(self.0.len());
		into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
		for i in &mut into[len_from_inner..] {
			*i = 0;
		}
		self.0 = &self.0[len_from_inner..];
		Ok(())
	}
}

pub trait TypeId {
	const TYPE_ID: [u8; 4];
}

pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId {
		self.into_sub_account_truncating(&())
	}
	fn try_into_account(&self) -> Option<AccountId> {
		self.try_into_sub_account(&())
	}
	fn try_from_account(a: &AccountId) -> Option<Self> {
		Self::try_from_sub_account::<()>(a).map(|x| x.0)
	}
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
	fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
}
impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
		(Id::TYPE_ID, self, sub)
			.using_encoded(|b| T::decode(&mut TrailingZeroInput(b)))
			.expect("All byte sequences are valid `AccountIds`; qed")
	}
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
		let encoded_seed = (Id::TYPE_ID, self, sub).encode();
		let account = T::decode(&mut TrailingZeroInput(&encoded_seed)).expect("All byte sequences are valid `AccountIds`; qed");
		// If the `account` generated has less bytes than the `encoded_seed`, return None
		account.using_encoded(|acc| {
			if acc.len() < encoded_seed.len() {
				return None;
			}
			Some(())
		})?;
		Some(account)
	}
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
		x.using_encoded(|d| {
			if d[0..4] != Id::TYPE_ID {
				return None;
			}
			let mut cursor = &d[4..];
			let result = Decode::decode(&mut cursor).ok()?;
			if cursor.iter().all(|x| *x == 0) {
				Some(result)
			} else {
				None
			}
		})
	}
}

// ------------------------------------------------------------ dispatch

pub trait Dispatchable {
	type RuntimeOrigin: Debug;
	type Config;
	type Info;
	type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable;
	fn dispatch(self, origin: Self::RuntimeOrigin) -> crate::DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;

pub trait SignedExtension {}

pub trait BlockNumberProvider {
	type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + scale_info::TypeInfo + Debug + MaxEncodedLen + Copy + EncodeLike + Default;
	fn current_block_number() -> Self::BlockNumber;
}

// ------------------------------------------------------------ blocks

pub trait BlockNumber:
	Member + AtLeast32BitUnsigned + Display + std::hash::Hash + Copy + MaxEncodedLen + scale_info::TypeInfo + Default + Codec + EncodeLike + std::str::FromStr
{
}
impl<T> BlockNumber for T where
	T: Member + AtLeast32BitUnsigned + Display + std::hash::Hash + Copy + MaxEncodedLen + scale_info::TypeInfo + Default + Codec + EncodeLike + std::str::FromStr
{
}
pub trait Header: Clone + Send + Sync + Codec + Eq + Debug + scale_info::TypeInfo + 'static {
	type Number: BlockNumber;
	type Hash: HashOutput;
	type Hashing: Hash<Output = Self::Hash>;
}
pub trait Block: Clone + Send + Sync + Codec + Eq + Debug + scale_info::TypeInfo + 'static {
	type Extrinsic;
	type Header: Header<Hash = Self::Hash>;
	type Hash: HashOutput;
}
pub trait HeaderProvider {
	type HeaderT: Header;
}
pub type HashingFor<B> = <<B as Block>::Header as Header>::Hashing;
pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;

pub trait OpaqueKeys {
	type KeyTypeIdProviders;
}

pub trait ResultOk {
	type Ok;
}
impl<T, E> ResultOk for Result<T, E> {
	type Ok = T;
}

pub trait GetRuntimeBlockType {
	type RuntimeBlock: Block;
}
pub trait GetNodeBlockType {
	type NodeBlock: Block;
}
pub trait ValidateUnsigned {
	type Call;
}
