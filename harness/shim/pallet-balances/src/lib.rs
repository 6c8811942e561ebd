//! Stand-in for pallet-balances.
pub use pallet::*;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::traits::tokens::{
	fungible, DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence,
};
use frame_support::traits::{Get, StoredMap};
use frame_support::{ensure};
use scale_info::TypeInfo;
use sp_runtime::traits::{CheckedAdd, CheckedSub, Saturating, Zero};
use sp_runtime::{DispatchError, DispatchResult};

#[derive(Clone, PartialEq, Eq, Default, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: u128,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::{pallet_prelude::*, traits::{tokens::Preservation::*, fungible::Mutate}};
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::StaticLookup;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason: Parameter + Member + MaxEncodedLen + Copy;
		type RuntimeFreezeReason;
		type WeightInfo;
		type Balance: frame_support::traits::tokens::Balance;
		type DustRemoval;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier;
		type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Copy;
		type MaxLocks;
		type MaxReserves;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
		IssuanceDeactivated,
		DeltaZero,
	}
	#[pallet::storage]
	pub type TotalIssuance<T: Config<I>, I: 'static = ()> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Holds<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<IdAmount<T::RuntimeHoldReason, T::Balance>>, ValueQuery>;
	#[pallet::storage]
	pub type Freezes<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<IdAmount<T::FreezeIdentifier, T::Balance>>, ValueQuery>;

	#[derive(frame_support::DefaultNoBound)]
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			for (who, b) in &self.balances {
				<Pallet<T, I> as Mutate<T::AccountId>>::mint_into(who, *b).expect("genesis balance");
			}
		}
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as Mutate<_>>::transfer(&source, &dest, value, Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let source = T::Lookup::lookup(source)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as Mutate<_>>::transfer(&source, &dest, value, Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as Mutate<_>>::transfer(&source, &dest, value, Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			let p = if keep_alive { Preserve } else { Expendable };
			let b = <Self as fungible::Inspect<_>>::reducible_balance(&source, p, Fortitude::Polite);
			<Self as Mutate<_>>::transfer(&source, &dest, b, p)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn force_unreserve(origin: OriginFor<T>, _who: <T::Lookup as StaticLookup>::Source, _amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			<Self as Mutate<_>>::set_balance(&who, new_free);
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn upgrade_accounts(origin: OriginFor<T>, who: Vec<T::AccountId>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (who,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(9)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_adjust_total_issuance(origin: OriginFor<T>, direction: bool, #[pallet::compact] delta: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (direction, delta,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(10)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn burn(origin: OriginFor<T>, #[pallet::compact] value: T::Balance, keep_alive: bool) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let p = if keep_alive { Preserve } else { Expendable };
			<Self as Mutate<_>>::burn_from(&source, value, p, frame_support::traits::tokens::Precision::Exact, Fortitude::Polite)?;
			Ok(())
		}
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).free
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).reserved
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	pub fn total_issuance() -> T::Balance {
		TotalIssuance::<T, I>::get()
	}
	/// Changes an account, keeping its reference counters right; returns what was below the minimum.
	fn mutate_account<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> Result<R, DispatchError>) -> Result<(R, Option<T::Balance>), DispatchError> {
		let ed = T::ExistentialDeposit::get();
		let mut a = Self::account(who);
		let did_provide = a.free >= ed && frame_system::Pallet::<T>::providers(who) > 0;
		let did_consume = !a.reserved.is_zero() || !a.frozen.is_zero();
		let r = f(&mut a)?;
		let does_provide = a.free >= ed;
		let does_consume = !a.reserved.is_zero() || !a.frozen.is_zero();
		if !did_provide && does_provide {
			frame_system::Pallet::<T>::inc_providers(who);
		}
		if did_consume && !does_consume {
			frame_system::Pallet::<T>::dec_consumers(who);
		}
		if !did_consume && does_consume {
			frame_system::Pallet::<T>::inc_consumers(who)?;
		}
		if did_provide && !does_provide {
			if let Err(e) = frame_system::Pallet::<T>::dec_providers(who) {
				if did_consume && !does_consume {
					let _ = frame_system::Pallet::<T>::inc_consumers(who);
				}
				if !did_consume && does_consume {
					frame_system::Pallet::<T>::dec_consumers(who);
				}
				return Err(e);
			}
		}
		let mut dust = None;
		if a.free < ed && a.reserved.is_zero() {
			if !a.free.is_zero() {
				dust = Some(a.free);
			}
			T::AccountStore::remove(who)?;
		} else {
			T::AccountStore::insert(who, a)?;
		}
		Ok((r, dust))
	}
	fn update_freezes(who: &T::AccountId, f: Vec<IdAmount<T::FreezeIdentifier, T::Balance>>) -> DispatchResult {
		let frozen = f.iter().map(|x| x.amount).fold(T::Balance::zero(), |a, b| a.max(b));
		let (_, dust) = Self::mutate_account(who, |a| {
			a.frozen = frozen;
			Ok(())
		})?;
		debug_assert!(dust.is_none());
		if f.is_empty() {
			Freezes::<T, I>::remove(who);
		} else {
			Freezes::<T, I>::insert(who, f);
		}
		Ok(())
	}
}

impl<T: Config<I>, I: 'static> fungible::Inspect<T::AccountId> for Pallet<T, I> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T, I>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		let a = Self::account(who);
		a.free.saturating_add(a.reserved)
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, preservation: Preservation, force: Fortitude) -> T::Balance {
		use Preservation::*;
		let a = Self::account(who);
		let mut untouchable = Zero::zero();
		if force == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		if preservation == Preserve
			|| preservation == Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1
			|| preservation == Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)
		{
			untouchable = untouchable.max(T::ExistentialDeposit::get());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success;
		}
		if provenance == Provenance::Minted && TotalIssuance::<T, I>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		let a = Self::account(who);
		match a.free.checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) if x < T::ExistentialDeposit::get() => return DepositConsequence::BelowMinimum,
			_ => {}
		}
		if a.reserved.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success;
		}
		if TotalIssuance::<T, I>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow;
		}
		let a = Self::account(who);
		let Some(new_free) = a.free.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
		let liquid = Self::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen;
		}
		let ed = T::ExistentialDeposit::get();
		let success = if new_free < ed {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				return WithdrawConsequence::WouldDie;
			}
		} else {
			WithdrawConsequence::Success
		};
		let Some(new_total) = new_free.checked_add(&a.reserved) else { return WithdrawConsequence::Overflow };
		if new_total < a.frozen {
			return WithdrawConsequence::Frozen;
		}
		success
	}
}
impl<T: Config<I>, I: 'static> fungible::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn handle_raw_dust(amount: T::Balance) {
		TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_sub(amount));
	}
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let (_, dust) = Self::mutate_account(who, |a| {
			let reduction = a.free.saturating_sub(amount);
			ensure!(reduction <= max_reduction, Error::<T, I>::InsufficientBalance);
			a.free = amount;
			Ok(())
		})?;
		Ok(dust)
	}
	fn set_total_issuance(amount: T::Balance) {
		TotalIssuance::<T, I>::put(amount)
	}
}
impl<T: Config<I>, I: 'static> fungible::Mutate<T::AccountId> for Pallet<T, I> {
	fn done_transfer(from: &T::AccountId, to: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Transfer { from: from.clone(), to: to.clone(), amount });
	}
}
impl<T: Config<I>, I: 'static> fungible::Balanced<T::AccountId> for Pallet<T, I> {}
impl<T: Config<I>, I: 'static> fungible::hold::Inspect<T::AccountId> for Pallet<T, I> {
	type Reason = T::RuntimeHoldReason;
	fn total_balance_on_hold(who: &T::AccountId) -> T::Balance {
		Self::account(who).reserved
	}
	fn balance_on_hold(reason: &Self::Reason, who: &T::AccountId) -> T::Balance {
		Holds::<T, I>::get(who).iter().find(|x| &x.id == reason).map_or_else(Zero::zero, |x| x.amount)
	}
	fn hold_available(_: &Self::Reason, who: &T::AccountId) -> bool {
		frame_system::Pallet::<T>::providers(who) > 0
	}
}
impl<T: Config<I>, I: 'static> fungible::hold::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn set_balance_on_hold(reason: &Self::Reason, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		let mut holds = Holds::<T, I>::get(who);
		let old = holds.iter().find(|x| &x.id == reason).map_or_else(T::Balance::zero, |x| x.amount);
		holds.retain(|x| &x.id != reason);
		if !amount.is_zero() {
			holds.push(IdAmount { id: *reason, amount });
		}
		Self::mutate_account(who, |a| {
			a.reserved = a.reserved.checked_sub(&old).and_then(|r| r.checked_add(&amount)).ok_or(sp_runtime::ArithmeticError::Overflow)?;
			Ok(())
		})?;
		if holds.is_empty() {
			Holds::<T, I>::remove(who);
		} else {
			Holds::<T, I>::insert(who, holds);
		}
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> fungible::hold::Mutate<T::AccountId> for Pallet<T, I> {}
impl<T: Config<I>, I: 'static> fungible::freeze::Inspect<T::AccountId> for Pallet<T, I> {
	type Id = T::FreezeIdentifier;
	fn balance_frozen(id: &Self::Id, who: &T::AccountId) -> T::Balance {
		Freezes::<T, I>::get(who).iter().find(|x| &x.id == id).map_or_else(Zero::zero, |x| x.amount)
	}
	fn can_freeze(id: &Self::Id, who: &T::AccountId) -> bool {
		let f = Freezes::<T, I>::get(who);
		(f.len() as u32) < T::MaxFreezes::get() || f.iter().any(|x| &x.id == id)
	}
}
impl<T: Config<I>, I: 'static> fungible::freeze::Mutate<T::AccountId> for Pallet<T, I> {
	fn set_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Self::thaw(id, who);
		}
		let mut f = Freezes::<T, I>::get(who);
		if let Some(x) = f.iter_mut().find(|x| &x.id == id) {
			x.amount = amount;
		} else {
			ensure!((f.len() as u32) < T::MaxFreezes::get(), Error::<T, I>::TooManyFreezes);
			f.push(IdAmount { id: *id, amount });
		}
		Self::update_freezes(who, f)
	}
	fn extend_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		let old = <Self as fungible::freeze::Inspect<_>>::balance_frozen(id, who);
		Self::set_freeze(id, who, old.max(amount))
	}
	fn thaw(id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		let mut f = Freezes::<T, I>::get(who);
		f.retain(|x| &x.id != id);
		Self::update_freezes(who, f)
	}
}

impl<T: Config<I>, I: 'static> frame_support::traits::Currency<T::AccountId> for Pallet<T, I> {
	type Balance = T::Balance;
	type PositiveImbalance = T::Balance;
	type NegativeImbalance = T::Balance;
	fn total_balance(who: &T::AccountId) -> T::Balance {
		<Self as fungible::Inspect<_>>::total_balance(who)
	}
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T, I>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn transfer(source: &T::AccountId, dest: &T::AccountId, value: T::Balance, existence: frame_support::traits::ExistenceRequirement) -> DispatchResult {
		use frame_support::traits::ExistenceRequirement::*;
		if value.is_zero() || source == dest {
			return Ok(());
		}
		let keep = match existence {
			KeepAlive => Preservation::Preserve,
			AllowDeath => Preservation::Expendable,
		};
		<Self as fungible::Mutate<_>>::transfer(source, dest, value, keep).map(|_| ())
	}
	fn deposit_creating(who: &T::AccountId, value: T::Balance) -> T::Balance {
		<Self as fungible::Mutate<_>>::mint_into(who, value).unwrap_or_else(|_| Zero::zero())
	}
	fn make_free_balance_be(who: &T::AccountId, value: T::Balance) {
		<Self as fungible::Mutate<_>>::set_balance(who, value);
	}
}
impl<T: Config<I>, I: 'static> frame_support::traits::ReservableCurrency<T::AccountId> for Pallet<T, I> {
	fn reserved_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).reserved
	}
	fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
		if value.is_zero() {
			return Ok(());
		}
		Self::mutate_account(who, |a| {
			a.free = a.free.checked_sub(&value).ok_or(Error::<T, I>::InsufficientBalance)?;
			a.reserved = a.reserved.checked_add(&value).ok_or(sp_runtime::ArithmeticError::Overflow)?;
			ensure!(a.free >= a.frozen, Error::<T, I>::LiquidityRestrictions);
			Ok(())
		})?;
		Ok(())
	}
	fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
		if value.is_zero() {
			return Zero::zero();
		}
		Self::mutate_account(who, |a| {
			let actual = a.reserved.min(value);
			a.reserved = a.reserved.saturating_sub(actual);
			a.free = a.free.saturating_add(actual);
			Ok(value.saturating_sub(actual))
		})
		.map_or(value, |r| r.0)
	}
	fn slash_reserved(who: &T::AccountId, value: T::Balance) -> T::Balance {
		Self::mutate_account(who, |a| {
			let actual = a.reserved.min(value);
			a.reserved = a.reserved.saturating_sub(actual);
			Ok(actual)
		})
		.map_or_else(
			|_| Zero::zero(),
			|r| {
				TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_sub(r.0));
				r.0
			},
		)
	}
}
