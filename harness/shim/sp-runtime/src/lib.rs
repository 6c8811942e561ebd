//! Stand-in for sp-runtime.
pub mod generic;
pub mod traits;
pub mod transaction_validity;

pub use codec;
pub use scale_info;
pub use sp_arithmetic::{
	self,
	per_things,
	traits::{SaturatedConversion, Saturating},
	ArithmeticError, FixedI64, FixedPointNumber, FixedU128, InnerOf, PerThing, PerU16, Perbill, Percent, Permill,
	Perquintill, Rounding,
};
pub use sp_core::{bounded_vec, crypto::AccountId32, BoundedVec, Storage, WeakBoundedVec};
pub use sp_core::bounded;
pub use sp_weights::Weight;
pub use serde::{Deserialize, Serialize};
pub use std::fmt::Debug as RuntimeDebug;

use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use traits::Verify;

pub mod biguint {}
pub mod testing {
	pub use crate::generic::Header;
	pub use sp_core::H256;
}
pub mod runtime_logger {}

pub type RuntimeString = std::borrow::Cow<'static, str>;
#[macro_export]
macro_rules! create_runtime_str {
	($e:expr) => {
		::std::borrow::Cow::Borrowed($e)
	};
}

/// Copy a string into a fixed-size, zero-padded array.
pub const fn str_array<const N: usize>(s: &str) -> [u8; N] {
	let b = s.as_bytes();
	let mut a = [0u8; N];
	let mut i = 0;
	while i < b.len() && i < N {
		a[i] = b[i];
		i += 1;
	}
	a
}

pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Serialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; MAX_MODULE_ERROR_ENCODED_SIZE],
	#[codec(skip)]
	#[serde(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Serialize)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Serialize)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, PartialEq, MaxEncodedLen, Serialize)]
pub enum DispatchError {
	Other(
		#[codec(skip)]
		#[serde(skip)]
		&'static str,
	),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info>
where
	Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable,
{
	pub post_info: Info,
	pub error: DispatchError,
}
impl<Info, E> From<E> for DispatchErrorWithPostInfo<Info>
where
	Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default,
	E: Into<DispatchError>,
{
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
			DispatchError::Token(_) => "Token error",
			DispatchError::Arithmetic(e) => e.into(),
			_ => "Dispatch error",
		}
	}
}
impl From<&'static str> for DispatchError {
	fn from(e: &'static str) -> Self {
		Self::Other(e)
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		Self::CannotLookup
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		Self::BadOrigin
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		Self::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		Self::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		Self::Transactional(e)
	}
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(ModuleError { index, error, .. }) => {
				DispatchError::Module(ModuleError { index, error, message: None })
			}
			m => m,
		}
	}
}
impl traits::Printable for DispatchError {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum ExtrinsicInclusionMode {
	AllExtrinsics,
	OnlyInherents,
}

pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Default::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, storage: &mut Storage) -> Result<(), String>;
}
impl BuildStorage for Storage {
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String> {
		s.top.extend(self.top.clone());
		Ok(())
	}
}

/// Run `f` on the given storage.
pub fn assimilate(storage: &mut Storage, f: impl FnOnce()) -> Result<(), String> {
	sp_core::externalities::swap(&mut storage.top);
	f();
	sp_core::externalities::swap(&mut storage.top);
	Ok(())
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum StateVersion {
	V0,
	#[default]
	V1,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
impl<L, R> Either<L, R> {
	pub fn left(self) -> Option<L> {
		match self {
			Either::Left(l) => Some(l),
			_ => None,
		}
	}
	pub fn right(self) -> Option<R> {
		match self {
			Either::Right(r) => Some(r),
			_ => None,
		}
	}
}

// ---------------------------------------------------------------- addresses

#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, TypeInfo, Hash)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(#[codec(compact)] AccountIndex),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<AccountId, AccountIndex> From<AccountId> for MultiAddress<AccountId, AccountIndex> {
	fn from(a: AccountId) -> Self {
		MultiAddress::Id(a)
	}
}
pub mod app_crypto {}
pub mod multiaddress {
	pub use crate::MultiAddress;
}

// ---------------------------------------------------------------- signatures

#[derive(Eq, PartialEq, Clone, Encode, Decode, MaxEncodedLen, Debug, TypeInfo, Ord, PartialOrd)]
pub enum MultiSignature {
	Ed25519([u8; 32]),
	Sr25519([u8; 32]),
	Ecdsa([u8; 32]),
}
#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Encode, Decode, MaxEncodedLen, Debug, TypeInfo)]
pub enum MultiSigner {
	Ed25519([u8; 32]),
	Sr25519([u8; 32]),
	Ecdsa([u8; 32]),
}
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 {
		match self {
			MultiSigner::Ed25519(w) | MultiSigner::Sr25519(w) | MultiSigner::Ecdsa(w) => w.into(),
		}
	}
}
impl Verify for MultiSignature {
	type Signer = MultiSigner;
	fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &AccountId32) -> bool {
		let (MultiSignature::Ed25519(s) | MultiSignature::Sr25519(s) | MultiSignature::Ecdsa(s)) = self;
		let mut m = msg.get().to_vec();
		m.extend_from_slice(signer.as_ref());
		*s == sp_core::blake2_256(&m)
	}
}

#[macro_export]
macro_rules! impl_opaque_keys {
	( $( #[ $attr:meta ] )* pub struct $name:ident { $( $( #[ $inner:meta ] )* pub $field:ident: $type:ty, )* } ) => {
		$( #[ $attr ] )*
		#[derive(Clone, PartialEq, Eq, Default, Debug, $crate::codec::Encode, $crate::codec::Decode, $crate::scale_info::TypeInfo)]
		pub struct $name;
		impl $crate::traits::OpaqueKeys for $name { type KeyTypeIdProviders = (); }
	};
}

#[macro_export]
macro_rules! print { ($($t:tt)*) => {} }

// ---------------------------------------------------------------- morphs

#[macro_export]
macro_rules! morph_types {
	// public interface: the last `: Morph` / `: TryMorph` decides which trait is implemented
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident < $( $bound_id:ident $( : $bound:path )? ),+ $(,)? > : Morph
		= |$var:ident: $var_type:ty| -> $outcome:ty $ex:block $( where $( $where_path:ty : $where_bound:path ),* )? ;
		$( $rest:tt )*
	) => {
		$( #[doc = $doc] )*
		$vq struct $name < $($bound_id,)* > ( ::core::marker::PhantomData< ( $($bound_id,)* ) > ) ;
		impl< $( $bound_id $( : $bound )? ,)+ > $crate::traits::Morph<$var_type> for $name < $($bound_id,)+ >
		$( where $( $where_path : $where_bound ),* )?
		{
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome $ex
		}
		$crate::morph_types!( $( $rest )* );
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident < $( $bound_id:ident $( : $bound:path )? ),+ $(,)? > : TryMorph
		= |$var:ident: $var_type:ty| -> Result<$outcome:ty, ()> $ex:block $( where $( $where_path:ty : $where_bound:path ),* )? ;
		$( $rest:tt )*
	) => {
		$( #[doc = $doc] )*
		$vq struct $name < $($bound_id,)* > ( ::core::marker::PhantomData< ( $($bound_id,)* ) > ) ;
		impl< $( $bound_id $( : $bound )? ,)+ > $crate::traits::TryMorph<$var_type> for $name < $($bound_id,)+ >
		$( where $( $where_path : $where_bound ),* )?
		{
			type Outcome = $outcome;
			fn try_morph($var: $var_type) -> Result<Self::Outcome, ()> $ex
		}
		$crate::morph_types!( $( $rest )* );
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident : Morph
		= |$var:ident: $var_type:ty| -> $outcome:ty $ex:block ;
		$( $rest:tt )*
	) => {
		$( #[doc = $doc] )*
		$vq struct $name;
		impl $crate::traits::Morph<$var_type> for $name {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome $ex
		}
		$crate::morph_types!( $( $rest )* );
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident : TryMorph
		= |$var:ident: $var_type:ty| -> Result<$outcome:ty, ()> $ex:block ;
		$( $rest:tt )*
	) => {
		$( #[doc = $doc] )*
		$vq struct $name;
		impl $crate::traits::TryMorph<$var_type> for $name {
			type Outcome = $outcome;
			fn try_morph($var: $var_type) -> Result<Self::Outcome, ()> $ex
		}
		$crate::morph_types!( $( $rest )* );
	};
	() => {};
}

pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
impl<R> TransactionOutcome<R> {
	pub fn into_inner(self) -> R {
		match self {
			Self::Commit(r) | Self::Rollback(r) => r,
		}
	}
}
