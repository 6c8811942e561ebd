//! A single asset.
use super::misc::{Balance, DepositConsequence, Fortitude::{self, *}, Precision::{self, *}, Preservation::{self, *}, Provenance::{self, Extant}, Restriction::{self, Free, OnHold}, WithdrawConsequence};
use crate::ensure;
use sp_runtime::{traits::{CheckedAdd, CheckedSub, Saturating, Zero}, ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::marker::PhantomData;

pub trait Inspect<AccountId>: Sized {
	
	type Balance: Balance;
	fn total_issuance() -> Self::Balance;
	fn active_issuance() -> Self::Balance { Self::total_issuance() }
	fn minimum_balance() -> Self::Balance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn balance(who: &AccountId) -> Self::Balance;
	fn reducible_balance(who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	
}

pub trait Unbalanced<AccountId>: Inspect<AccountId> {
	fn handle_raw_dust(amount: Self::Balance);
	fn write_balance(who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
	fn set_total_issuance(amount: Self::Balance);
	fn decrease_balance(who: &AccountId, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(who);
		let reducible = Self::reducible_balance(who, preservation, force);
		match precision {
			BestEffort => amount = amount.min(reducible),
			Exact => ensure!(reducible >= amount, TokenError::FundsUnavailable),
		}
		let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		if let Some(dust) = Self::write_balance(who, new_balance)? {
			Self::handle_raw_dust(dust);
		}
		Ok(old_balance.saturating_sub(new_balance))
	}
	fn increase_balance(who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(who);
		let new_balance = if let BestEffort = precision {
			old_balance.saturating_add(amount)
		} else {
			old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
		};
		if new_balance < Self::minimum_balance() {
			// an increase from nothing to below the minimum stays at nothing
			if let BestEffort = precision { Ok(Self::Balance::default()) } else { Err(TokenError::BelowMinimum.into()) }
		} else if new_balance == old_balance {
			Ok(Self::Balance::default())
		} else {
			if let Some(dust) = Self::write_balance(who, new_balance)? {
				Self::handle_raw_dust(dust);
			}
			Ok(new_balance.saturating_sub(old_balance))
		}
	}
}

pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId>
where
	AccountId: Eq,
{
	fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::total_issuance().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(who, amount, Exact)?;
		Self::set_total_issuance(Self::total_issuance().saturating_add(actual));
		Self::done_mint_into(who, amount);
		Ok(actual)
	}
	fn burn_from(who: &AccountId, amount: Self::Balance, preservation: Preservation, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(who, preservation, force).min(amount);
		ensure!(actual == amount || precision == BestEffort, TokenError::FundsUnavailable);
		Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(who, actual, BestEffort, preservation, force)?;
		Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
		Self::done_burn_from(who, actual);
		Ok(actual)
	}
	fn transfer(source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
		let _extra = Self::can_withdraw(source, amount).into_result(preservation != Expendable)?;
		Self::can_deposit(dest, amount, Extant).into_result()?;
		if source == dest {
			return Ok(amount);
		}
		Self::decrease_balance(source, amount, BestEffort, preservation, Polite)?;
		// cannot fail: the deposit was checked above
		let _ = Self::increase_balance(dest, amount, BestEffort);
		Self::done_transfer(source, dest, amount);
		Ok(amount)
	}
	fn set_balance(who: &AccountId, amount: Self::Balance) -> Self::Balance {
		let b = Self::balance(who);
		if b > amount {
			Self::burn_from(who, b - amount, Expendable, BestEffort, Force).map(|d| b.saturating_sub(d))
		} else {
			Self::mint_into(who, amount - b).map(|d| b.saturating_add(d))
		}
		.unwrap_or(b)
	}
	fn done_mint_into(_who: &AccountId, _amount: Self::Balance) {}
	fn done_burn_from(_who: &AccountId, _amount: Self::Balance) {}
	fn done_transfer(_source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
}

pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {}

pub struct ItemOf<F, A, AccountId>(PhantomData<(F, A, AccountId)>);
pub struct HoldConsideration<A, F, R, D, Fp = crate::traits::Footprint>(PhantomData<(A, F, R, D, Fp)>);
pub struct NativeFromLeft;
pub struct NativeOrWithId<AssetId>(PhantomData<AssetId>);
pub struct UnionOf<Left, Right, Criterion, AssetKind, AccountId>(PhantomData<(Left, Right, Criterion, AssetKind, AccountId)>);

#[derive(Debug)]
pub struct Credit<AccountId, B>(u128, PhantomData<(AccountId, B)>);
impl<AccountId, B> Credit<AccountId, B> {
	pub fn of(amount: u128) -> Self {
		Credit(amount, PhantomData)
	}
	pub fn amount(&self) -> u128 {
		self.0
	}
}
pub struct DecreaseIssuance<AccountId, U>(PhantomData<(AccountId, U)>);
pub struct IncreaseIssuance<AccountId, U>(PhantomData<(AccountId, U)>);
pub struct Imbalance<B, D, C>(PhantomData<(B, D, C)>);
#[derive(Debug)]
pub struct Debt<AccountId, B>(PhantomData<(AccountId, B)>);

pub mod hold {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Reason: codec::Encode + scale_info::TypeInfo + 'static;
		fn total_balance_on_hold(who: &AccountId) -> Self::Balance;
		fn reducible_total_balance_on_hold(who: &AccountId, _force: Fortitude) -> Self::Balance { Self::total_balance_on_hold(who) }
		fn balance_on_hold(reason: &Self::Reason, who: &AccountId) -> Self::Balance;
		fn hold_available(_reason: &Self::Reason, _who: &AccountId) -> bool { true }
		fn ensure_can_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			ensure!(Self::hold_available(reason, who), TokenError::CannotCreateHold);
			ensure!(amount <= Self::reducible_balance(who, Protect, Force), TokenError::FundsUnavailable);
			Ok(())
		}
		fn can_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> bool { Self::ensure_can_hold(reason, who, amount).is_ok() }
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn set_balance_on_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn decrease_balance_on_hold(reason: &Self::Reason, who: &AccountId, mut amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance_on_hold(reason, who);
			if let BestEffort = precision {
				amount = amount.min(old_balance);
			}
			let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			Self::set_balance_on_hold(reason, who, new_balance)?;
			Ok(amount)
		}
		fn increase_balance_on_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance_on_hold(reason, who);
			let new_balance = if let BestEffort = precision {
				old_balance.saturating_add(amount)
			} else {
				old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			let amount = new_balance.saturating_sub(old_balance);
			if !amount.is_zero() {
				Self::set_balance_on_hold(reason, who, new_balance)?;
			}
			Ok(amount)
		}
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> + super::Unbalanced<AccountId> + Unbalanced<AccountId> {
		fn hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			// the total balance does not change, so liquidity need not be checked
			Self::ensure_can_hold(reason, who, amount)?;
			Self::decrease_balance(who, amount, Exact, Protect, Force)?;
			Self::increase_balance_on_hold(reason, who, amount, BestEffort)?;
			Ok(())
		}
		fn release(reason: &Self::Reason, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			ensure!(Self::can_deposit(who, amount, Extant) == DepositConsequence::Success, TokenError::CannotCreate);
			let amount = Self::decrease_balance_on_hold(reason, who, amount, precision)?;
			let actual = Self::increase_balance(who, amount, BestEffort)?;
			Ok(actual)
		}
		fn set_on_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let held = Self::balance_on_hold(reason, who);
			if amount > held {
				Self::hold(reason, who, amount - held)
			} else {
				Self::release(reason, who, held - amount, BestEffort).map(|_| ())
			}
		}
		fn release_all(reason: &Self::Reason, who: &AccountId, precision: Precision) -> Result<Self::Balance, DispatchError> {
			Self::release(reason, who, Self::balance_on_hold(reason, who), precision)
		}
		fn burn_all_held(reason: &Self::Reason, who: &AccountId, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			Self::burn_held(reason, who, Self::balance_on_hold(reason, who), precision, force)
		}
		fn burn_held(reason: &Self::Reason, who: &AccountId, mut amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			let liquid = Self::reducible_total_balance_on_hold(who, force);
			if let BestEffort = precision {
				amount = amount.min(liquid);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
			}
			let amount = Self::decrease_balance_on_hold(reason, who, amount, precision)?;
			Self::set_total_issuance(Self::total_issuance().saturating_sub(amount));
			Ok(amount)
		}
		fn transfer_on_hold(reason: &Self::Reason, source: &AccountId, dest: &AccountId, mut amount: Self::Balance, precision: Precision, mode: Restriction, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			let have = Self::balance_on_hold(reason, source);
			let liquid = Self::reducible_total_balance_on_hold(source, force);
			if let BestEffort = precision {
				amount = amount.min(liquid).min(have);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
				ensure!(amount <= have, TokenError::FundsUnavailable);
			}
			ensure!(Self::can_deposit(dest, amount, Extant) == DepositConsequence::Success, TokenError::CannotCreate);
			ensure!(mode == Free || Self::hold_available(reason, dest), TokenError::CannotCreateHold);
			let amount = Self::decrease_balance_on_hold(reason, source, amount, precision)?;
			let actual = if mode == OnHold {
				Self::increase_balance_on_hold(reason, dest, amount, precision)?
			} else {
				Self::increase_balance(dest, amount, precision)?
			};
			Ok(actual)
		}
		fn transfer_and_hold(reason: &Self::Reason, source: &AccountId, dest: &AccountId, amount: Self::Balance, precision: Precision, expendability: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			ensure!(Self::hold_available(reason, dest), TokenError::CannotCreateHold);
			ensure!(Self::can_deposit(dest, amount, Extant) == DepositConsequence::Success, TokenError::CannotCreate);
			let actual = Self::decrease_balance(source, amount, precision, expendability, force)?;
			Self::increase_balance_on_hold(reason, dest, actual, precision)?;
			Ok(actual)
		}
	}
}
pub mod freeze {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Id: codec::Encode + scale_info::TypeInfo + 'static;
		fn balance_frozen(id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(who: &AccountId) -> Self::Balance { Self::total_balance(who) }
		fn can_freeze(id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn set_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn extend_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn thaw(id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn set_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Force;
			ensure!(force || Self::balance_freezable(who) >= amount, TokenError::FundsUnavailable);
			Self::set_freeze(id, who, amount)
		}
		fn ensure_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Force;
			ensure!(force || Self::balance_freezable(who) >= amount, TokenError::FundsUnavailable);
			Self::extend_freeze(id, who, amount)
		}
		fn decrease_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(id, who).checked_sub(&amount).ok_or(ArithmeticError::Underflow)?;
			Self::set_frozen(id, who, a, Polite)
		}
		fn increase_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(id, who).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			Self::set_frozen(id, who, a, Polite)
		}
	}
}
pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
pub use hold::{Inspect as InspectHold, Mutate as MutateHold, Unbalanced as UnbalancedHold};
