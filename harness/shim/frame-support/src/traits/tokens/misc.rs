use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{AtLeast32BitUnsigned, Convert, MaybeSerializeDeserialize, Member, Zero},
	ArithmeticError, DispatchError, TokenError,
};
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Provenance {
	Minted,
	Extant,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Restriction {
	Free,
	OnHold,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Preservation {
	Expendable,
	Protect,
	Preserve,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fortitude {
	Polite,
	Force,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Precision {
	Exact,
	BestEffort,
}
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub enum WithdrawConsequence<Balance> {
	BalanceLow,
	WouldDie,
	UnknownAsset,
	Underflow,
	Overflow,
	Frozen,
	ReducedToZero(Balance),
	Success,
}
impl<Balance: Zero> WithdrawConsequence<Balance> {
	pub fn into_result(self, keep_nonzero: bool) -> Result<Balance, DispatchError> {
		use WithdrawConsequence::*;
		match self {
			BalanceLow => Err(TokenError::FundsUnavailable.into()),
			WouldDie => Err(TokenError::OnlyProvider.into()),
			UnknownAsset => Err(TokenError::UnknownAsset.into()),
			Underflow => Err(ArithmeticError::Underflow.into()),
			Overflow => Err(ArithmeticError::Overflow.into()),
			Frozen => Err(TokenError::Frozen.into()),
			ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
			ReducedToZero(result) => Ok(result),
			Success => Ok(Zero::zero()),
		}
	}
}
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub enum DepositConsequence {
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Overflow,
	Success,
	Blocked,
}
impl DepositConsequence {
	pub fn into_result(self) -> Result<(), DispatchError> {
		use DepositConsequence::*;
		Err(match self {
			BelowMinimum => TokenError::BelowMinimum.into(),
			CannotCreate => TokenError::CannotCreate.into(),
			UnknownAsset => TokenError::UnknownAsset.into(),
			Overflow => ArithmeticError::Overflow.into(),
			Blocked => TokenError::Blocked.into(),
			Success => return Ok(()),
		})
	}
}
#[derive(Copy, Clone, Debug, Encode, Decode, Eq, PartialEq, TypeInfo, MaxEncodedLen)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(Copy, Clone, Debug, Encode, Decode, Eq, PartialEq, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
/// Reasons for a withdrawal, as a bit set.
#[derive(Copy, Clone, Debug, Encode, Decode, Eq, PartialEq, TypeInfo, MaxEncodedLen)]
pub struct WithdrawReasons(pub i8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = Self(1);
	pub const TRANSFER: Self = Self(2);
	pub const RESERVE: Self = Self(4);
	pub const FEE: Self = Self(8);
	pub const TIP: Self = Self(16);
	pub fn all() -> Self {
		Self(31)
	}
	pub fn except(one: WithdrawReasons) -> WithdrawReasons {
		Self(31 & !one.0)
	}
	pub fn contains(&self, o: Self) -> bool {
		self.0 & o.0 == o.0
	}
}
impl std::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		Self(self.0 | o.0)
	}
}
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + MaybeSerializeDeserialize + Member + 'static {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + MaybeSerializeDeserialize + Member + 'static> Balance for T {}
pub trait ConversionToAssetBalance<InBalance, AssetId, AssetBalance> {
	type Error;
	fn to_asset_balance(balance: InBalance, asset_id: AssetId) -> Result<AssetBalance, Self::Error>;
}
pub trait ConversionFromAssetBalance<AssetBalance, AssetId, OutBalance> {
	type Error;
	fn from_asset_balance(balance: AssetBalance, asset_id: AssetId) -> Result<OutBalance, Self::Error>;
}
pub struct ConvertRank<C>(std::marker::PhantomData<C>);
pub trait GetSalary<Rank, AccountId, Balance> {
	fn get_salary(rank: Rank, who: &AccountId) -> Balance;
}
impl<A, R, B, C: Convert<R, B>> GetSalary<R, A, B> for ConvertRank<C> {
	fn get_salary(r: R, _: &A) -> B {
		C::convert(r)
	}
}
pub trait Locker<CollectionId, ItemId> {
	fn is_locked(collection: CollectionId, item: ItemId) -> bool;
}
impl<C, I> Locker<C, I> for () {
	fn is_locked(_: C, _: I) -> bool {
		false
	}
}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub enum AttributeNamespaceKind {
	Pallet,
}
