//! Multiple assets.
use super::misc::{Balance, DepositConsequence, Fortitude::{self, *}, Precision::{self, *}, Preservation::{self, *}, Provenance::{self, Extant}, Restriction::{self, Free, OnHold}, WithdrawConsequence, AssetId};
use crate::ensure;
use sp_runtime::{traits::{CheckedAdd, CheckedSub, Saturating, Zero}, ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::marker::PhantomData;

pub trait Inspect<AccountId>: Sized {
	type AssetId: AssetId;
	type Balance: Balance;
	fn total_issuance(asset: Self::AssetId) -> Self::Balance;
	fn active_issuance(asset: Self::AssetId) -> Self::Balance { Self::total_issuance(asset.clone()) }
	fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
	fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
	fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
	fn reducible_balance(asset: Self::AssetId, who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	fn asset_exists(asset: Self::AssetId) -> bool;
}

pub trait Unbalanced<AccountId>: Inspect<AccountId> {
	fn handle_raw_dust(asset: Self::AssetId, amount: Self::Balance);
	fn write_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
	fn set_total_issuance(asset: Self::AssetId, amount: Self::Balance);
	fn decrease_balance(asset: Self::AssetId, who: &AccountId, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(asset.clone(), who);
		let reducible = Self::reducible_balance(asset.clone(), who, preservation, force);
		match precision {
			BestEffort => amount = amount.min(reducible),
			Exact => ensure!(reducible >= amount, TokenError::FundsUnavailable),
		}
		let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		if let Some(dust) = Self::write_balance(asset.clone(), who, new_balance)? {
			Self::handle_raw_dust(asset.clone(), dust);
		}
		Ok(old_balance.saturating_sub(new_balance))
	}
	fn increase_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(asset.clone(), who);
		let new_balance = if let BestEffort = precision {
			old_balance.saturating_add(amount)
		} else {
			old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
		};
		if new_balance < Self::minimum_balance(asset.clone()) {
			// an increase from nothing to below the minimum stays at nothing
			if let BestEffort = precision { Ok(Self::Balance::default()) } else { Err(TokenError::BelowMinimum.into()) }
		} else if new_balance == old_balance {
			Ok(Self::Balance::default())
		} else {
			if let Some(dust) = Self::write_balance(asset.clone(), who, new_balance)? {
				Self::handle_raw_dust(asset.clone(), dust);
			}
			Ok(new_balance.saturating_sub(old_balance))
		}
	}
}

pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId>
where
	AccountId: Eq,
{
	fn mint_into(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::total_issuance(asset.clone()).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(asset.clone(), who, amount, Exact)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_add(actual));
		Self::done_mint_into(asset.clone(), who, amount);
		Ok(actual)
	}
	fn burn_from(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, preservation: Preservation, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(asset.clone(), who, preservation, force).min(amount);
		ensure!(actual == amount || precision == BestEffort, TokenError::FundsUnavailable);
		Self::total_issuance(asset.clone()).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(asset.clone(), who, actual, BestEffort, preservation, force)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(actual));
		Self::done_burn_from(asset.clone(), who, actual);
		Ok(actual)
	}
	fn transfer(asset: Self::AssetId, source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
		let _extra = Self::can_withdraw(asset.clone(), source, amount).into_result(preservation != Expendable)?;
		Self::can_deposit(asset.clone(), dest, amount, Extant).into_result()?;
		if source == dest {
			return Ok(amount);
		}
		Self::decrease_balance(asset.clone(), source, amount, BestEffort, preservation, Polite)?;
		// cannot fail: the deposit was checked above
		let _ = Self::increase_balance(asset.clone(), dest, amount, BestEffort);
		Self::done_transfer(asset.clone(), source, dest, amount);
		Ok(amount)
	}
	fn set_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Self::Balance {
		let b = Self::balance(asset.clone(), who);
		if b > amount {
			Self::burn_from(asset.clone(), who, b - amount, Expendable, BestEffort, Force).map(|d| b.saturating_sub(d))
		} else {
			Self::mint_into(asset.clone(), who, amount - b).map(|d| b.saturating_add(d))
		}
		.unwrap_or(b)
	}
	fn done_mint_into(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) {}
	fn done_burn_from(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) {}
	fn done_transfer(_asset: Self::AssetId, _source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
}

pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
	/// Pay a credit into an account.
	fn resolve(who: &AccountId, credit: Credit<AccountId, Self>) -> Result<(), Credit<AccountId, Self>>
	where
		Self: Mutate<AccountId> + Sized,
		AccountId: Eq,
	{
		match credit.asset::<Self::AssetId>() {
			Some(asset) => match Self::mint_into(asset, who, sp_runtime::SaturatedConversion::saturated_into(credit.amount())) {
				Ok(_) => Ok(()),
				Err(_) => Err(credit),
			},
			None => Err(credit),
		}
	}
}

pub trait Create<AccountId>: Inspect<AccountId> {
	fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
}
pub trait Destroy<AccountId>: Inspect<AccountId> {}
pub mod roles {
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		fn owner(asset: Self::AssetId) -> Option<AccountId>;
		fn issuer(asset: Self::AssetId) -> Option<AccountId>;
		fn admin(asset: Self::AssetId) -> Option<AccountId>;
		fn freezer(asset: Self::AssetId) -> Option<AccountId>;
	}
}

/// An amount of an asset (in encoded form) that belongs to no account yet.
#[derive(Debug)]
pub struct Credit<AccountId, B>(Vec<u8>, u128, PhantomData<(AccountId, B)>);
impl<AccountId, B> Credit<AccountId, B> {
	pub fn of(asset: impl codec::Encode, amount: u128) -> Self {
		Credit(asset.encode(), amount, PhantomData)
	}
	pub fn asset<A: codec::Decode>(&self) -> Option<A> {
		A::decode(&mut &self.0[..]).ok()
	}
	pub fn amount(&self) -> u128 {
		self.1
	}
}
#[derive(Debug)]
pub struct Debt<AccountId, B>(PhantomData<(AccountId, B)>);

pub mod hold {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Reason: codec::Encode + scale_info::TypeInfo + 'static;
		fn total_balance_on_hold(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
		fn reducible_total_balance_on_hold(asset: Self::AssetId, who: &AccountId, _force: Fortitude) -> Self::Balance { Self::total_balance_on_hold(asset.clone(), who) }
		fn balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId) -> Self::Balance;
		fn hold_available(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId) -> bool { true }
		fn ensure_can_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			ensure!(Self::hold_available(asset.clone(), reason, who), TokenError::CannotCreateHold);
			ensure!(amount <= Self::reducible_balance(asset.clone(), who, Protect, Force), TokenError::FundsUnavailable);
			Ok(())
		}
		fn can_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> bool { Self::ensure_can_hold(asset.clone(), reason, who, amount).is_ok() }
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn set_balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn decrease_balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, mut amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance_on_hold(asset.clone(), reason, who);
			if let BestEffort = precision {
				amount = amount.min(old_balance);
			}
			let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			Self::set_balance_on_hold(asset.clone(), reason, who, new_balance)?;
			Ok(amount)
		}
		fn increase_balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance_on_hold(asset.clone(), reason, who);
			let new_balance = if let BestEffort = precision {
				old_balance.saturating_add(amount)
			} else {
				old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			let amount = new_balance.saturating_sub(old_balance);
			if !amount.is_zero() {
				Self::set_balance_on_hold(asset.clone(), reason, who, new_balance)?;
			}
			Ok(amount)
		}
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> + super::Unbalanced<AccountId> + Unbalanced<AccountId> {
		fn hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			// the total balance does not change, so liquidity need not be checked
			Self::ensure_can_hold(asset.clone(), reason, who, amount)?;
			Self::decrease_balance(asset.clone(), who, amount, Exact, Protect, Force)?;
			Self::increase_balance_on_hold(asset.clone(), reason, who, amount, BestEffort)?;
			Ok(())
		}
		fn release(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			ensure!(Self::can_deposit(asset.clone(), who, amount, Extant) == DepositConsequence::Success, TokenError::CannotCreate);
			let amount = Self::decrease_balance_on_hold(asset.clone(), reason, who, amount, precision)?;
			let actual = Self::increase_balance(asset.clone(), who, amount, BestEffort)?;
			Ok(actual)
		}
		fn set_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let held = Self::balance_on_hold(asset.clone(), reason, who);
			if amount > held {
				Self::hold(asset, reason, who, amount - held)
			} else {
				Self::release(asset, reason, who, held - amount, BestEffort).map(|_| ())
			}
		}
		fn release_all(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, precision: Precision) -> Result<Self::Balance, DispatchError> {
			Self::release(asset.clone(), reason, who, Self::balance_on_hold(asset, reason, who), precision)
		}
		fn burn_all_held(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			Self::burn_held(asset.clone(), reason, who, Self::balance_on_hold(asset, reason, who), precision, force)
		}
		fn burn_held(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, mut amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			let liquid = Self::reducible_total_balance_on_hold(asset.clone(), who, force);
			if let BestEffort = precision {
				amount = amount.min(liquid);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
			}
			let amount = Self::decrease_balance_on_hold(asset.clone(), reason, who, amount, precision)?;
			Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(amount));
			Ok(amount)
		}
		fn transfer_on_hold(asset: Self::AssetId, reason: &Self::Reason, source: &AccountId, dest: &AccountId, mut amount: Self::Balance, precision: Precision, mode: Restriction, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			let have = Self::balance_on_hold(asset.clone(), reason, source);
			let liquid = Self::reducible_total_balance_on_hold(asset.clone(), source, force);
			if let BestEffort = precision {
				amount = amount.min(liquid).min(have);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
				ensure!(amount <= have, TokenError::FundsUnavailable);
			}
			ensure!(Self::can_deposit(asset.clone(), dest, amount, Extant) == DepositConsequence::Success, TokenError::CannotCreate);
			ensure!(mode == Free || Self::hold_available(asset.clone(), reason, dest), TokenError::CannotCreateHold);
			let amount = Self::decrease_balance_on_hold(asset.clone(), reason, source, amount, precision)?;
			let actual = if mode == OnHold {
				Self::increase_balance_on_hold(asset.clone(), reason, dest, amount, precision)?
			} else {
				Self::increase_balance(asset.clone(), dest, amount, precision)?
			};
			Ok(actual)
		}
		fn transfer_and_hold(asset: Self::AssetId, reason: &Self::Reason, source: &AccountId, dest: &AccountId, amount: Self::Balance, precision: Precision, expendability: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			ensure!(Self::hold_available(asset.clone(), reason, dest), TokenError::CannotCreateHold);
			ensure!(Self::can_deposit(asset.clone(), dest, amount, Extant) == DepositConsequence::Success, TokenError::CannotCreate);
			let actual = Self::decrease_balance(asset.clone(), source, amount, precision, expendability, force)?;
			Self::increase_balance_on_hold(asset.clone(), reason, dest, actual, precision)?;
			Ok(actual)
		}
	}
}
pub mod freeze {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Id: codec::Encode + scale_info::TypeInfo + 'static;
		fn balance_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(asset: Self::AssetId, who: &AccountId) -> Self::Balance { Self::total_balance(asset.clone(), who) }
		fn can_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn set_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn extend_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn thaw(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn set_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Force;
			ensure!(force || Self::balance_freezable(asset.clone(), who) >= amount, TokenError::FundsUnavailable);
			Self::set_freeze(asset.clone(), id, who, amount)
		}
		fn ensure_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Force;
			ensure!(force || Self::balance_freezable(asset.clone(), who) >= amount, TokenError::FundsUnavailable);
			Self::extend_freeze(asset.clone(), id, who, amount)
		}
		fn decrease_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(asset.clone(), id, who).checked_sub(&amount).ok_or(ArithmeticError::Underflow)?;
			Self::set_frozen(asset.clone(), id, who, a, Polite)
		}
		fn increase_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(asset.clone(), id, who).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			Self::set_frozen(asset.clone(), id, who, a, Polite)
		}
	}
}
pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
pub use hold::{Inspect as InspectHold, Mutate as MutateHold, Unbalanced as UnbalancedHold};
