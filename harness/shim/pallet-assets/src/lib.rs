//! Stand-in for pallet-assets (with balances on hold, as in the fork the node uses).
pub use frame_support::instances::*;
pub use pallet::*;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::ensure;
use frame_support::traits::tokens::{
	fungible, fungibles, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence,
};
use frame_support::traits::Get;
use scale_info::TypeInfo;
use sp_runtime::traits::{CheckedAdd, CheckedSub, Saturating, Zero};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum AssetStatus {
	Live,
	Frozen,
	Destroying,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AssetDetails<Balance, AccountId> {
	pub owner: AccountId,
	pub issuer: AccountId,
	pub admin: AccountId,
	pub freezer: AccountId,
	pub supply: Balance,
	pub min_balance: Balance,
	pub is_sufficient: bool,
	pub accounts: u32,
	pub sufficients: u32,
	pub status: AssetStatus,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum AccountStatus {
	Liquid,
	Frozen,
	Blocked,
}
impl AccountStatus {
	fn is_frozen(&self) -> bool {
		matches!(self, AccountStatus::Frozen | AccountStatus::Blocked)
	}
	fn is_blocked(&self) -> bool {
		matches!(self, AccountStatus::Blocked)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum ExistenceReason {
	Consumer,
	Sufficient,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AssetAccount<Balance> {
	pub balance: Balance,
	pub status: AccountStatus,
	pub reason: ExistenceReason,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
pub trait FrozenBalance<AssetId, AccountId, Balance> {
	fn frozen_balance(asset: AssetId, who: &AccountId) -> Option<Balance>;
	fn died(asset: AssetId, who: &AccountId);
}
impl<AssetId, AccountId, Balance> FrozenBalance<AssetId, AccountId, Balance> for () {
	fn frozen_balance(_: AssetId, _: &AccountId) -> Option<Balance> {
		None
	}
	fn died(_: AssetId, _: &AccountId) {}
}
pub trait AssetsCallback<AssetId, AccountId> {
	fn created(_id: &AssetId, _owner: &AccountId) -> Result<(), ()> {
		Ok(())
	}
	fn destroyed(_id: &AssetId) -> Result<(), ()> {
		Ok(())
	}
}
impl<AssetId, AccountId> AssetsCallback<AssetId, AccountId> for () {}
pub trait WeightInfo {
	fn create() -> frame_support::weights::Weight;
	fn force_create() -> frame_support::weights::Weight;
	fn start_destroy() -> frame_support::weights::Weight;
	fn destroy_accounts(c: u32) -> frame_support::weights::Weight;
	fn destroy_approvals(a: u32) -> frame_support::weights::Weight;
	fn finish_destroy() -> frame_support::weights::Weight;
	fn mint() -> frame_support::weights::Weight;
	fn burn() -> frame_support::weights::Weight;
	fn transfer() -> frame_support::weights::Weight;
	fn transfer_keep_alive() -> frame_support::weights::Weight;
	fn force_transfer() -> frame_support::weights::Weight;
	fn freeze() -> frame_support::weights::Weight;
	fn thaw() -> frame_support::weights::Weight;
	fn freeze_asset() -> frame_support::weights::Weight;
	fn thaw_asset() -> frame_support::weights::Weight;
	fn transfer_ownership() -> frame_support::weights::Weight;
	fn set_team() -> frame_support::weights::Weight;
	fn set_metadata(n: u32, s: u32) -> frame_support::weights::Weight;
	fn clear_metadata() -> frame_support::weights::Weight;
	fn force_set_metadata(n: u32, s: u32) -> frame_support::weights::Weight;
	fn force_clear_metadata() -> frame_support::weights::Weight;
	fn force_asset_status() -> frame_support::weights::Weight;
	fn approve_transfer() -> frame_support::weights::Weight;
	fn transfer_approved() -> frame_support::weights::Weight;
	fn cancel_approval() -> frame_support::weights::Weight;
	fn force_cancel_approval() -> frame_support::weights::Weight;
	fn set_min_balance() -> frame_support::weights::Weight;
	fn touch() -> frame_support::weights::Weight;
	fn touch_other() -> frame_support::weights::Weight;
	fn refund() -> frame_support::weights::Weight;
	fn refund_other() -> frame_support::weights::Weight;
	fn block() -> frame_support::weights::Weight;
	fn transfer_all() -> frame_support::weights::Weight;
}
/// Converts by the ratio of the minimum balances; only assets that are sufficient have one.
pub struct BalanceToAssetBalance<F, T, CON, I = ()>(core::marker::PhantomData<(F, T, CON, I)>);
impl<F, T, CON, I> frame_support::traits::tokens::ConversionToAssetBalance<u128, T::AssetId, T::Balance> for BalanceToAssetBalance<F, T, CON, I>
where
	F: fungible::Inspect<T::AccountId, Balance = u128>,
	T: Config<I, Balance = u128>,
	I: 'static,
{
	type Error = DispatchError;
	fn to_asset_balance(balance: u128, asset: T::AssetId) -> Result<u128, DispatchError> {
		let details = Asset::<T, I>::get(asset).ok_or(DispatchError::Other("AssetMissing"))?;
		ensure!(details.is_sufficient, DispatchError::Other("AssetNotSufficient"));
		let min = F::minimum_balance();
		ensure!(min > 0, DispatchError::Other("MinBalanceZero"));
		// asset_min / native_min * balance, at the precision of the upstream fixed point type
		Ok(sp_runtime::FixedU128::saturating_from_rational(details.min_balance, min).saturating_mul_int(balance))
	}
}
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}
#[derive(Clone, Copy)]
struct DebitFlags {
	keep_alive: bool,
	best_effort: bool,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::{pallet_prelude::*, traits::{fungibles::{Create, Mutate}, EnsureOriginWithArg}};
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::StaticLookup;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason: Parameter + Member + MaxEncodedLen + Copy;
		type Balance: frame_support::traits::tokens::Balance;
		type RemoveItemsLimit;
		type AssetId: Parameter + Member + MaxEncodedLen;
		type AssetIdParameter: Parameter + From<Self::AssetId> + Into<Self::AssetId> + MaxEncodedLen;
		type Currency;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::AssetId, Success = Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type AssetDeposit;
		type AssetAccountDeposit;
		type MetadataDepositBase;
		type MetadataDepositPerByte;
		type ApprovalDeposit;
		type StringLimit;
		type Freezer: FrozenBalance<Self::AssetId, Self::AccountId, Self::Balance>;
		type MaxHolds: Get<u32>;
		type Extra;
		type CallbackHandle;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { asset_id: T::AssetId, creator: T::AccountId, owner: T::AccountId },
		Issued { asset_id: T::AssetId, owner: T::AccountId, amount: T::Balance },
		Transferred { asset_id: T::AssetId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Burned { asset_id: T::AssetId, owner: T::AccountId, balance: T::Balance },
		ForceCreated { asset_id: T::AssetId, owner: T::AccountId },
		Frozen { asset_id: T::AssetId, who: T::AccountId },
		Thawed { asset_id: T::AssetId, who: T::AccountId },
		AssetFrozen { asset_id: T::AssetId },
		AssetThawed { asset_id: T::AssetId },
		Blocked { asset_id: T::AssetId, who: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		BalanceLow,
		NoAccount,
		NoPermission,
		Unknown,
		Frozen,
		InUse,
		BadWitness,
		MinBalanceZero,
		UnavailableConsumer,
		BadMetadata,
		Unapproved,
		WouldDie,
		AlreadyExists,
		NoDeposit,
		WouldBurn,
		LiveAsset,
		AssetNotLive,
		IncorrectStatus,
		NotFrozen,
		CallbackFailed,
		BadAssetId,
		TooManyHolds,
	}
	#[pallet::storage]
	pub type Asset<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AssetId, AssetDetails<T::Balance, T::AccountId>>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, AssetAccount<T::Balance>>;
	#[pallet::storage]
	pub type Holds<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, Vec<IdAmount<T::RuntimeHoldReason, T::Balance>>, ValueQuery>;
	/// What disappeared with accounts that fell below the minimum.
	#[pallet::storage]
	pub type Dust<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AssetId, T::Balance, ValueQuery>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub assets: Vec<(T::AssetId, T::AccountId, bool, T::Balance)>,
		pub metadata: Vec<(T::AssetId, Vec<u8>, Vec<u8>, u8)>,
		pub accounts: Vec<(T::AssetId, T::AccountId, T::Balance)>,
		pub next_asset_id: Option<T::AssetId>,
	}
	impl<T: Config<I>, I: 'static> Default for GenesisConfig<T, I> {
		fn default() -> Self {
			Self { assets: vec![], metadata: vec![], accounts: vec![], next_asset_id: None }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			for (id, owner, sufficient, min) in &self.assets {
				<Pallet<T, I> as Create<T::AccountId>>::create(id.clone(), owner.clone(), *sufficient, *min).expect("genesis asset");
			}
			for (id, who, amount) in &self.accounts {
				<Pallet<T, I> as Mutate<T::AccountId>>::mint_into(id.clone(), who, *amount).expect("genesis asset account");
			}
		}
	}
	type Source<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn create(origin: OriginFor<T>, id: T::AssetIdParameter, admin: Source<T>, min_balance: T::Balance) -> DispatchResult {
			let id: T::AssetId = id.into();
			let owner = T::CreateOrigin::ensure_origin(origin, &id)?;
			let _admin = T::Lookup::lookup(admin)?;
			<Self as Create<_>>::create(id.clone(), owner.clone(), false, min_balance)?;
			Self::deposit_event(Event::Created { asset_id: id, creator: owner.clone(), owner });
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn force_create(origin: OriginFor<T>, id: T::AssetIdParameter, owner: Source<T>, is_sufficient: bool, #[pallet::compact] min_balance: T::Balance) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let id: T::AssetId = id.into();
			let owner = T::Lookup::lookup(owner)?;
			<Self as Create<_>>::create(id, owner, is_sufficient, min_balance)
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn mint(origin: OriginFor<T>, id: T::AssetIdParameter, beneficiary: Source<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let to = T::Lookup::lookup(beneficiary)?;
			ensure!(Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?.issuer == who, Error::<T, I>::NoPermission);
			<Self as Mutate<_>>::mint_into(id.clone(), &to, amount)?;
			Self::deposit_event(Event::Issued { asset_id: id, owner: to, amount });
			Ok(())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn burn(origin: OriginFor<T>, id: T::AssetIdParameter, who: Source<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let admin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let who = T::Lookup::lookup(who)?;
			ensure!(Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?.admin == admin, Error::<T, I>::NoPermission);
			<Self as Mutate<_>>::burn_from(id, &who, amount, Preservation::Expendable, Precision::BestEffort, Fortitude::Polite)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn transfer(origin: OriginFor<T>, id: T::AssetIdParameter, target: Source<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let to = T::Lookup::lookup(target)?;
			<Self as Mutate<_>>::transfer(id.into(), &who, &to, amount, Preservation::Expendable).map(|_| ())
		}
		#[pallet::call_index(9)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn transfer_keep_alive(origin: OriginFor<T>, id: T::AssetIdParameter, target: Source<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let to = T::Lookup::lookup(target)?;
			<Self as Mutate<_>>::transfer(id.into(), &who, &to, amount, Preservation::Preserve).map(|_| ())
		}
		#[pallet::call_index(11)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn freeze(origin: OriginFor<T>, id: T::AssetIdParameter, who: Source<T>) -> DispatchResult {
			let f = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let who = T::Lookup::lookup(who)?;
			ensure!(Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?.freezer == f, Error::<T, I>::NoPermission);
			Account::<T, I>::try_mutate(id, who, |a| -> DispatchResult {
				a.as_mut().ok_or(Error::<T, I>::NoAccount)?.status = AccountStatus::Frozen;
				Ok(())
			})
		}
		#[pallet::call_index(12)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn thaw(origin: OriginFor<T>, id: T::AssetIdParameter, who: Source<T>) -> DispatchResult {
			let f = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let who = T::Lookup::lookup(who)?;
			ensure!(Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?.admin == f, Error::<T, I>::NoPermission);
			Account::<T, I>::try_mutate(id, who, |a| -> DispatchResult {
				a.as_mut().ok_or(Error::<T, I>::NoAccount)?.status = AccountStatus::Liquid;
				Ok(())
			})
		}
		#[pallet::call_index(13)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn freeze_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let f = ensure_signed(origin)?;
			Self::set_status(id.into(), f, AssetStatus::Frozen)
		}
		#[pallet::call_index(14)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn thaw_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let f = ensure_signed(origin)?;
			Self::set_status(id.into(), f, AssetStatus::Live)
		}
		#[pallet::call_index(31)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn block(origin: OriginFor<T>, id: T::AssetIdParameter, who: Source<T>) -> DispatchResult {
			let f = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let who = T::Lookup::lookup(who)?;
			ensure!(Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?.freezer == f, Error::<T, I>::NoPermission);
			Account::<T, I>::try_mutate(id, who, |a| -> DispatchResult {
				a.as_mut().ok_or(Error::<T, I>::NoAccount)?.status = AccountStatus::Blocked;
				Ok(())
			})
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn start_destroy(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn destroy_accounts(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn destroy_approvals(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn finish_destroy(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(10)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_transfer(origin: OriginFor<T>, id: T::AssetIdParameter, source: Source<T>, dest: Source<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let admin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let (source, dest) = (T::Lookup::lookup(source)?, T::Lookup::lookup(dest)?);
			ensure!(Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?.admin == admin, Error::<T, I>::NoPermission);
			<Self as Mutate<_>>::transfer(id, &source, &dest, amount, Preservation::Expendable).map(|_| ())
		}
		#[pallet::call_index(15)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn transfer_ownership(origin: OriginFor<T>, id: T::AssetIdParameter, owner: Source<T>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, owner,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(16)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_team(origin: OriginFor<T>, id: T::AssetIdParameter, issuer: Source<T>, admin: Source<T>, freezer: Source<T>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, issuer, admin, freezer,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(17)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, name, symbol, decimals,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(18)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn clear_metadata(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(19)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let _ = (id, name, symbol, decimals, is_frozen,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(20)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_clear_metadata(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(21)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_asset_status(origin: OriginFor<T>, id: T::AssetIdParameter, owner: Source<T>, issuer: Source<T>, admin: Source<T>, freezer: Source<T>, #[pallet::compact] min_balance: T::Balance, is_sufficient: bool, is_frozen: bool) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let _ = (id, owner, issuer, admin, freezer, min_balance, is_sufficient, is_frozen,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(22)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn approve_transfer(origin: OriginFor<T>, id: T::AssetIdParameter, delegate: Source<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, delegate, amount,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(23)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn cancel_approval(origin: OriginFor<T>, id: T::AssetIdParameter, delegate: Source<T>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, delegate,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(24)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn force_cancel_approval(origin: OriginFor<T>, id: T::AssetIdParameter, owner: Source<T>, delegate: Source<T>) -> DispatchResult {
			let _ = (origin, id, owner, delegate);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(25)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn transfer_approved(origin: OriginFor<T>, id: T::AssetIdParameter, owner: Source<T>, destination: Source<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, owner, destination, amount,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(26)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn touch(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(27)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn refund(origin: OriginFor<T>, id: T::AssetIdParameter, allow_burn: bool) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, allow_burn,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(28)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn set_min_balance(origin: OriginFor<T>, id: T::AssetIdParameter, min_balance: T::Balance) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, min_balance,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(29)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn touch_other(origin: OriginFor<T>, id: T::AssetIdParameter, who: Source<T>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, who,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(30)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn refund_other(origin: OriginFor<T>, id: T::AssetIdParameter, who: Source<T>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, who,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(32)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn transfer_all(origin: OriginFor<T>, id: T::AssetIdParameter, dest: Source<T>, keep_alive: bool) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (id, dest, keep_alive,);
			Err(DispatchError::Other("not modelled"))
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		fn set_status(id: T::AssetId, who: T::AccountId, s: AssetStatus) -> DispatchResult {
			Asset::<T, I>::try_mutate(id, |a| -> DispatchResult {
				let d = a.as_mut().ok_or(Error::<T, I>::Unknown)?;
				ensure!(d.freezer == who, Error::<T, I>::NoPermission);
				d.status = s;
				Ok(())
			})
		}
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn balance(id: T::AssetId, who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Account::<T, I>::get(id, who.borrow()).map_or_else(Zero::zero, |a| a.balance)
	}
	pub fn total_supply(id: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(id).map_or_else(Zero::zero, |d| d.supply)
	}
	fn can_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance, increase_supply: bool) -> DepositConsequence {
		let Some(details) = Asset::<T, I>::get(&id) else { return DepositConsequence::UnknownAsset };
		if increase_supply && details.supply.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		if let Some(account) = Account::<T, I>::get(&id, who) {
			if account.status.is_blocked() {
				return DepositConsequence::Blocked;
			}
			if account.balance.checked_add(&amount).is_none() {
				return DepositConsequence::Overflow;
			}
		} else {
			if amount < details.min_balance {
				return DepositConsequence::BelowMinimum;
			}
			if !details.is_sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
				return DepositConsequence::CannotCreate;
			}
			if details.is_sufficient && details.sufficients.checked_add(1).is_none() {
				return DepositConsequence::Overflow;
			}
		}
		DepositConsequence::Success
	}
	fn can_decrease(id: T::AssetId, who: &T::AccountId, amount: T::Balance, keep_alive: bool) -> WithdrawConsequence<T::Balance> {
		use WithdrawConsequence::*;
		let Some(details) = Asset::<T, I>::get(&id) else { return UnknownAsset };
		if details.supply.checked_sub(&amount).is_none() {
			return Underflow;
		}
		if details.status == AssetStatus::Frozen {
			return Frozen;
		}
		if amount.is_zero() {
			return Success;
		}
		let Some(account) = Account::<T, I>::get(&id, who) else { return BalanceLow };
		if account.status.is_frozen() {
			return Frozen;
		}
		let Some(rest) = account.balance.checked_sub(&amount) else { return BalanceLow };
		if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			match frozen.checked_add(&details.min_balance) {
				Some(required) if rest < required => return Frozen,
				None => return Overflow,
				_ => {}
			}
		}
		if rest < details.min_balance {
			if keep_alive {
				WouldDie
			} else {
				ReducedToZero(rest)
			}
		} else {
			Success
		}
	}
	fn reducible(id: T::AssetId, who: &T::AccountId, keep_alive: bool) -> Result<T::Balance, DispatchError> {
		let details = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(details.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		let account = Account::<T, I>::get(&id, who).ok_or(Error::<T, I>::NoAccount)?;
		ensure!(!account.status.is_frozen(), Error::<T, I>::Frozen);
		let amount = if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			let required = frozen.checked_add(&details.min_balance).ok_or(ArithmeticError::Overflow)?;
			account.balance.saturating_sub(required)
		} else if keep_alive {
			account.balance.saturating_sub(details.min_balance)
		} else {
			account.balance
		};
		Ok(amount.min(details.supply))
	}
	fn prep_debit(id: T::AssetId, target: &T::AccountId, amount: T::Balance, f: DebitFlags) -> Result<T::Balance, DispatchError> {
		let actual = Self::reducible(id.clone(), target, f.keep_alive)?.min(amount);
		ensure!(f.best_effort || actual >= amount, Error::<T, I>::BalanceLow);
		let conseq = Self::can_decrease(id, target, actual, f.keep_alive);
		Ok(actual.saturating_add(conseq.into_result(f.keep_alive)?))
	}
	fn dead(id: &T::AssetId, who: &T::AccountId, d: &mut AssetDetails<T::Balance, T::AccountId>, reason: ExistenceReason) {
		match reason {
			ExistenceReason::Consumer => frame_system::Pallet::<T>::dec_consumers(who),
			ExistenceReason::Sufficient => {
				d.sufficients = d.sufficients.saturating_sub(1);
				frame_system::Pallet::<T>::dec_sufficients(who);
			}
		}
		d.accounts = d.accounts.saturating_sub(1);
		T::Freezer::died(id.clone(), who);
	}
	fn do_decrease(id: T::AssetId, target: &T::AccountId, amount: T::Balance, f: DebitFlags) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() {
			return Ok(amount);
		}
		let mut details = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
		let actual = Self::prep_debit(id.clone(), target, amount, f)?;
		Account::<T, I>::try_mutate_exists(&id, target, |maybe| -> DispatchResult {
			let mut account = maybe.take().ok_or(Error::<T, I>::NoAccount)?;
			account.balance = account.balance.saturating_sub(actual);
			if account.balance < details.min_balance {
				debug_assert!(account.balance.is_zero());
				Self::dead(&id, target, &mut details, account.reason);
				return Ok(());
			}
			*maybe = Some(account);
			Ok(())
		})?;
		if actual > amount {
			Dust::<T, I>::mutate(&id, |d| *d = d.saturating_add(actual - amount));
		}
		Asset::<T, I>::insert(&id, details);
		Ok(actual)
	}
	fn do_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		Self::can_increase(id.clone(), who, amount, true).into_result()?;
		let mut details = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
		Account::<T, I>::try_mutate(&id, who, |maybe| -> DispatchResult {
			match maybe {
				Some(a) => a.balance = a.balance.saturating_add(amount),
				None => {
					let reason = if details.is_sufficient {
						frame_system::Pallet::<T>::inc_sufficients(who);
						details.sufficients += 1;
						ExistenceReason::Sufficient
					} else {
						frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T, I>::UnavailableConsumer)?;
						ExistenceReason::Consumer
					};
					details.accounts += 1;
					*maybe = Some(AssetAccount { balance: amount, status: AccountStatus::Liquid, reason });
				}
			}
			Ok(())
		})?;
		Asset::<T, I>::insert(&id, details);
		Ok(())
	}
}

impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn total_issuance(asset: T::AssetId) -> T::Balance {
		Self::total_supply(asset)
	}
	fn minimum_balance(asset: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(asset).map_or_else(Zero::zero, |d| d.min_balance)
	}
	fn total_balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Self::balance(asset.clone(), who).saturating_add(<Self as fungibles::hold::Inspect<_>>::total_balance_on_hold(asset, who))
	}
	fn balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Pallet::<T, I>::balance(asset, who)
	}
	fn reducible_balance(asset: T::AssetId, who: &T::AccountId, preservation: Preservation, _: Fortitude) -> T::Balance {
		Self::reducible(asset, who, preservation != Preservation::Expendable).unwrap_or_else(|_| Zero::zero())
	}
	fn can_deposit(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		Self::can_increase(asset, who, amount, provenance == Provenance::Minted)
	}
	fn can_withdraw(asset: T::AssetId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		Self::can_decrease(asset, who, amount, false)
	}
	fn asset_exists(asset: T::AssetId) -> bool {
		Asset::<T, I>::contains_key(asset)
	}
}
impl<T: Config<I>, I: 'static> fungibles::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn handle_raw_dust(asset: T::AssetId, amount: T::Balance) {
		Dust::<T, I>::mutate(asset, |d| *d = d.saturating_add(amount));
	}
	fn write_balance(_: T::AssetId, _: &T::AccountId, _: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		unreachable!("write_balance is not used if other functions are impl'd")
	}
	fn set_total_issuance(id: T::AssetId, amount: T::Balance) {
		Asset::<T, I>::mutate_exists(id, |a| {
			if let Some(d) = a {
				d.supply = amount
			}
		});
	}
	fn decrease_balance(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, precision: Precision, preservation: Preservation, _: Fortitude) -> Result<T::Balance, DispatchError> {
		let f = DebitFlags { keep_alive: preservation != Preservation::Expendable, best_effort: precision == Precision::BestEffort };
		Self::do_decrease(asset, who, amount, f)
	}
	fn increase_balance(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, _: Precision) -> Result<T::Balance, DispatchError> {
		Self::do_increase(asset, who, amount)?;
		Ok(amount)
	}
}
impl<T: Config<I>, I: 'static> fungibles::Mutate<T::AccountId> for Pallet<T, I> {
	fn done_transfer(asset_id: T::AssetId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Transferred { asset_id, from: from.clone(), to: to.clone(), amount });
	}
	fn done_mint_into(asset_id: T::AssetId, who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Issued { asset_id, owner: who.clone(), amount });
	}
}
impl<T: Config<I>, I: 'static> fungibles::Balanced<T::AccountId> for Pallet<T, I> {}
impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
	fn create(id: T::AssetId, admin: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
		ensure!(!Asset::<T, I>::contains_key(&id), Error::<T, I>::InUse);
		ensure!(!min_balance.is_zero(), Error::<T, I>::MinBalanceZero);
		Asset::<T, I>::insert(
			&id,
			AssetDetails {
				owner: admin.clone(),
				issuer: admin.clone(),
				admin: admin.clone(),
				freezer: admin.clone(),
				supply: Zero::zero(),
				min_balance,
				is_sufficient,
				accounts: 0,
				sufficients: 0,
				status: AssetStatus::Live,
			},
		);
		Self::deposit_event(Event::ForceCreated { asset_id: id, owner: admin });
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> fungibles::roles::Inspect<T::AccountId> for Pallet<T, I> {
	fn owner(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.owner)
	}
	fn issuer(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.issuer)
	}
	fn admin(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.admin)
	}
	fn freezer(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.freezer)
	}
}
impl<T: Config<I>, I: 'static> fungibles::hold::Inspect<T::AccountId> for Pallet<T, I> {
	type Reason = T::RuntimeHoldReason;
	fn total_balance_on_hold(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Holds::<T, I>::get(asset, who).iter().fold(Zero::zero(), |a: T::Balance, x| a.saturating_add(x.amount))
	}
	fn balance_on_hold(asset: T::AssetId, reason: &Self::Reason, who: &T::AccountId) -> T::Balance {
		Holds::<T, I>::get(asset, who).iter().find(|x| &x.id == reason).map_or_else(Zero::zero, |x| x.amount)
	}
	fn hold_available(asset: T::AssetId, reason: &Self::Reason, who: &T::AccountId) -> bool {
		let h = Holds::<T, I>::get(asset, who);
		(h.len() as u32) < T::MaxHolds::get() || h.iter().any(|x| &x.id == reason)
	}
}
impl<T: Config<I>, I: 'static> fungibles::hold::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn set_balance_on_hold(asset: T::AssetId, reason: &Self::Reason, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		let mut h = Holds::<T, I>::get(&asset, who);
		h.retain(|x| &x.id != reason);
		if !amount.is_zero() {
			ensure!((h.len() as u32) < T::MaxHolds::get(), Error::<T, I>::TooManyHolds);
			h.push(IdAmount { id: *reason, amount });
		}
		if h.is_empty() {
			Holds::<T, I>::remove(&asset, who);
		} else {
			Holds::<T, I>::insert(&asset, who, h);
		}
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> fungibles::hold::Mutate<T::AccountId> for Pallet<T, I> {}
