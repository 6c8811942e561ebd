//! The old currency traits, reduced to what the verified code names.
use super::misc::{Balance as BalanceT, ExistenceRequirement, WithdrawReasons};
pub use super::misc::{BalanceStatus, ExistenceRequirement as _Existence, WithdrawReasons as _Withdraw};
use sp_runtime::{DispatchError, DispatchResult};
pub trait Currency<AccountId> {
	type Balance: BalanceT;
	type PositiveImbalance;
	type NegativeImbalance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn total_issuance() -> Self::Balance;
	fn minimum_balance() -> Self::Balance;
	fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, existence: ExistenceRequirement) -> DispatchResult;
	fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
	fn make_free_balance_be(who: &AccountId, value: Self::Balance);
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
	fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
	/// Removes from the reserved balance and from circulation; returns what was removed.
	fn slash_reserved(who: &AccountId, value: Self::Balance) -> Self::Balance;
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {}
pub trait NamedReservableCurrency<AccountId>: ReservableCurrency<AccountId> {}
pub trait VestingSchedule<AccountId> {}
pub type WithdrawReasonsT = WithdrawReasons;
#[allow(unused)]
type E = DispatchError;

impl<AccountId> Currency<AccountId> for () {
	type Balance = u32;
	type PositiveImbalance = u32;
	type NegativeImbalance = u32;
	fn total_balance(_: &AccountId) -> u32 {
		0
	}
	fn free_balance(_: &AccountId) -> u32 {
		0
	}
	fn total_issuance() -> u32 {
		0
	}
	fn minimum_balance() -> u32 {
		0
	}
	fn transfer(_: &AccountId, _: &AccountId, _: u32, _: ExistenceRequirement) -> DispatchResult {
		Ok(())
	}
	fn deposit_creating(_: &AccountId, _: u32) -> u32 {
		0
	}
	fn make_free_balance_be(_: &AccountId, _: u32) {}
}
