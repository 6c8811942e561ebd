//! Stand-in for pallet-nfts: collections, items, system attributes and prices; every setting enabled, no deposits.
pub use frame_support::instances::*;
pub use pallet::*;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::ensure;
use frame_support::traits::{nonfungibles_v2::*, Currency, ExistenceRequirement, Get};
use frame_system::pallet_prelude::BlockNumberFor;
use scale_info::TypeInfo;
use sp_runtime::{DispatchError, DispatchResult};

pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub type CollectionConfigFor<T, I = ()> = CollectionConfig<BalanceOf<T, I>, BlockNumberFor<T>, <T as Config<I>>::CollectionId>;

#[derive(Clone, Copy, Debug, Default, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct CollectionSettings(pub u64);
#[derive(Clone, Copy, Debug, Default, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct ItemSettings(pub u64);
#[derive(Clone, Copy, Debug, Default, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct ItemConfig {
	pub settings: ItemSettings,
}
#[derive(Clone, Copy, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub enum MintType<CollectionId> {
	Issuer,
	Public,
	HolderOf(CollectionId),
}
#[derive(Clone, Copy, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct MintSettings<Price, BlockNumber, CollectionId> {
	pub mint_type: MintType<CollectionId>,
	pub price: Option<Price>,
	pub start_block: Option<BlockNumber>,
	pub end_block: Option<BlockNumber>,
	pub default_item_settings: ItemSettings,
}
impl<P, B, C> Default for MintSettings<P, B, C> {
	fn default() -> Self {
		Self { mint_type: MintType::Issuer, price: None, start_block: None, end_block: None, default_item_settings: Default::default() }
	}
}
#[derive(Clone, Copy, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct CollectionConfig<Price, BlockNumber, CollectionId> {
	pub settings: CollectionSettings,
	pub max_supply: Option<u32>,
	pub mint_settings: MintSettings<Price, BlockNumber, CollectionId>,
}
impl<P, B, C> Default for CollectionConfig<P, B, C> {
	fn default() -> Self {
		Self { settings: Default::default(), max_supply: None, mint_settings: Default::default() }
	}
}
#[derive(Clone, Copy, Debug, Default, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct PalletFeatures(pub u64);
impl PalletFeatures {
	pub fn all_enabled() -> Self {
		Self(0)
	}
}
#[derive(Clone, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct CollectionDetails<AccountId> {
	pub owner: AccountId,
	pub items: u32,
	pub max_supply: Option<u32>,
}
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::StaticLookup;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type CollectionId: Parameter + Member + MaxEncodedLen + Copy + frame_support::traits::Incrementable;
		type ItemId: Parameter + Member + MaxEncodedLen + Copy;
		type Currency: Currency<Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type CreateOrigin: frame_support::traits::EnsureOriginWithArg<Self::RuntimeOrigin, Self::CollectionId, Success = Self::AccountId>;
		type Locker;
		type CollectionDeposit;
		type ItemDeposit;
		type MetadataDepositBase;
		type AttributeDepositBase;
		type DepositPerByte;
		type StringLimit;
		type KeyLimit: Get<u32>;
		type ValueLimit: Get<u32>;
		type ApprovalsLimit;
		type ItemAttributesApprovalsLimit;
		type MaxTips;
		type MaxDeadlineDuration;
		type MaxAttributesPerCall;
		type Features;
		type OffchainSignature;
		type OffchainPublic;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { collection: T::CollectionId, creator: T::AccountId, owner: T::AccountId },
		ForceCreated { collection: T::CollectionId, owner: T::AccountId },
		Issued { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
		Transferred { collection: T::CollectionId, item: T::ItemId, from: T::AccountId, to: T::AccountId },
		Burned { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
		ItemPriceSet { collection: T::CollectionId, item: T::ItemId, price: BalanceOf<T, I>, whitelisted_buyer: Option<T::AccountId> },
		ItemPriceRemoved { collection: T::CollectionId, item: T::ItemId },
		ItemBought { collection: T::CollectionId, item: T::ItemId, price: BalanceOf<T, I>, seller: T::AccountId, buyer: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NoPermission,
		UnknownCollection,
		AlreadyExists,
		CollectionIdInUse,
		UnknownItem,
		MaxSupplyReached,
		NotForSale,
		BidTooLow,
		IncorrectData,
		ItemLocked,
	}
	#[pallet::storage]
	pub type Collection<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::CollectionId, CollectionDetails<T::AccountId>>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> = StorageNMap<
		_,
		(
			NMapKey<Blake2_128Concat, T::AccountId>,
			NMapKey<Blake2_128Concat, T::CollectionId>,
			NMapKey<Blake2_128Concat, T::ItemId>,
		),
		(),
		OptionQuery,
	>;
	#[pallet::storage]
	pub type Item<T: Config<I>, I: 'static = ()> = StorageDoubleMap<_, Blake2_128Concat, T::CollectionId, Blake2_128Concat, T::ItemId, T::AccountId>;
	#[pallet::storage]
	pub type Attribute<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, (T::CollectionId, Option<T::ItemId>), Blake2_128Concat, Vec<u8>, Vec<u8>>;
	#[pallet::storage]
	pub type ItemPriceOf<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::CollectionId, Blake2_128Concat, T::ItemId, (BalanceOf<T, I>, Option<T::AccountId>)>;

	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		/// which collection comes next is not modelled, only who may create one
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn create(origin: OriginFor<T>, collection: T::CollectionId, admin: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			<T::CreateOrigin as frame_support::traits::EnsureOriginWithArg<_, _>>::ensure_origin(origin, &collection)?;
			let _ = admin;
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn force_create(origin: OriginFor<T>, owner: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let _ = owner;
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn mint(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId, mint_to: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let mint_to = T::Lookup::lookup(mint_to)?;
			let c = Collection::<T, I>::get(collection).ok_or(Error::<T, I>::UnknownCollection)?;
			ensure!(c.owner == who, Error::<T, I>::NoPermission);
			Self::do_mint(collection, item, mint_to)
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn burn(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Self::do_burn(collection, item, Some(&who))
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn transfer(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId, dest: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			let owner = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
			ensure!(owner == who, Error::<T, I>::NoPermission);
			Self::do_transfer(collection, item, dest)
		}
		#[pallet::call_index(13)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn force_collection_owner(origin: OriginFor<T>, collection: T::CollectionId, owner: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			Collection::<T, I>::try_mutate(collection, |c| {
				c.as_mut().ok_or(Error::<T, I>::UnknownCollection)?.owner = owner;
				Ok(())
			})
		}
		#[pallet::call_index(31)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn set_price(
			origin: OriginFor<T>,
			collection: T::CollectionId,
			item: T::ItemId,
			price: Option<BalanceOf<T, I>>,
			whitelisted_buyer: Option<<T::Lookup as StaticLookup>::Source>,
		) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let buyer = whitelisted_buyer.map(T::Lookup::lookup).transpose()?;
			Self::do_set_price(collection, item, who, price, buyer)
		}
		#[pallet::call_index(32)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn buy_item(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId, bid_price: BalanceOf<T, I>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Self::do_buy_item(collection, item, who, bid_price)
		}
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn do_create_collection(
		collection: T::CollectionId,
		owner: T::AccountId,
		_admin: T::AccountId,
		config: CollectionConfigFor<T, I>,
		_deposit: BalanceOf<T, I>,
		event: Event<T, I>,
	) -> DispatchResult {
		ensure!(!Collection::<T, I>::contains_key(collection), Error::<T, I>::CollectionIdInUse);
		Collection::<T, I>::insert(collection, CollectionDetails { owner, items: 0, max_supply: config.max_supply });
		Self::deposit_event(event);
		Ok(())
	}
	fn do_mint(collection: T::CollectionId, item: T::ItemId, who: T::AccountId) -> DispatchResult {
		ensure!(!Item::<T, I>::contains_key(collection, item), Error::<T, I>::AlreadyExists);
		Collection::<T, I>::try_mutate(collection, |c| -> DispatchResult {
			let c = c.as_mut().ok_or(Error::<T, I>::UnknownCollection)?;
			if let Some(max) = c.max_supply {
				ensure!(c.items < max, Error::<T, I>::MaxSupplyReached);
			}
			c.items = c.items.checked_add(1).ok_or(sp_runtime::ArithmeticError::Overflow)?;
			Ok(())
		})?;
		Account::<T, I>::insert((who.clone(), collection, item), ());
		Item::<T, I>::insert(collection, item, who.clone());
		Self::deposit_event(Event::Issued { collection, item, owner: who });
		Ok(())
	}
	fn do_burn(collection: T::CollectionId, item: T::ItemId, check: Option<&T::AccountId>) -> DispatchResult {
		let owner = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
		if let Some(o) = check {
			ensure!(o == &owner, Error::<T, I>::NoPermission);
		}
		Collection::<T, I>::mutate_extant(collection, |c| c.items = c.items.saturating_sub(1));
		Item::<T, I>::remove(collection, item);
		Account::<T, I>::remove((owner.clone(), collection, item));
		ItemPriceOf::<T, I>::remove(collection, item);
		Self::deposit_event(Event::Burned { collection, item, owner });
		Ok(())
	}
	fn do_transfer(collection: T::CollectionId, item: T::ItemId, dest: T::AccountId) -> DispatchResult {
		let from = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
		Account::<T, I>::remove((from.clone(), collection, item));
		Account::<T, I>::insert((dest.clone(), collection, item), ());
		Item::<T, I>::insert(collection, item, dest.clone());
		ItemPriceOf::<T, I>::remove(collection, item);
		Self::deposit_event(Event::Transferred { collection, item, from, to: dest });
		Ok(())
	}
	fn do_set_price(collection: T::CollectionId, item: T::ItemId, sender: T::AccountId, price: Option<BalanceOf<T, I>>, buyer: Option<T::AccountId>) -> DispatchResult {
		let owner = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
		ensure!(owner == sender, Error::<T, I>::NoPermission);
		match price {
			Some(p) => {
				ItemPriceOf::<T, I>::insert(collection, item, (p, buyer.clone()));
				Self::deposit_event(Event::ItemPriceSet { collection, item, price: p, whitelisted_buyer: buyer });
			}
			None => {
				ItemPriceOf::<T, I>::remove(collection, item);
				Self::deposit_event(Event::ItemPriceRemoved { collection, item });
			}
		}
		Ok(())
	}
	fn do_buy_item(collection: T::CollectionId, item: T::ItemId, buyer: T::AccountId, bid: BalanceOf<T, I>) -> DispatchResult {
		let seller = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
		ensure!(seller != buyer, Error::<T, I>::NoPermission);
		let (price, only) = ItemPriceOf::<T, I>::get(collection, item).ok_or(Error::<T, I>::NotForSale)?;
		ensure!(bid >= price, Error::<T, I>::BidTooLow);
		if let Some(only) = only {
			ensure!(only == buyer, Error::<T, I>::NoPermission);
		}
		T::Currency::transfer(&buyer, &seller, price, ExistenceRequirement::KeepAlive)?;
		Self::do_transfer(collection, item, buyer.clone())?;
		Self::deposit_event(Event::ItemBought { collection, item, price, seller, buyer });
		Ok(())
	}
	fn put_attribute(collection: &T::CollectionId, item: Option<T::ItemId>, key: &[u8], value: &[u8]) -> DispatchResult {
		ensure!(Collection::<T, I>::contains_key(collection), Error::<T, I>::UnknownCollection);
		ensure!(key.len() as u32 <= T::KeyLimit::get() && value.len() as u32 <= T::ValueLimit::get(), Error::<T, I>::IncorrectData);
		Attribute::<T, I>::insert((*collection, item), key.to_vec(), value.to_vec());
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> Inspect<T::AccountId> for Pallet<T, I> {
	type ItemId = T::ItemId;
	type CollectionId = T::CollectionId;
	fn owner(collection: &T::CollectionId, item: &T::ItemId) -> Option<T::AccountId> {
		Item::<T, I>::get(collection, item)
	}
	fn collection_owner(collection: &T::CollectionId) -> Option<T::AccountId> {
		Collection::<T, I>::get(collection).map(|c| c.owner)
	}
	fn attribute(_: &T::CollectionId, _: &T::ItemId, _: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn system_attribute(collection: &T::CollectionId, item: Option<&T::ItemId>, key: &[u8]) -> Option<Vec<u8>> {
		Attribute::<T, I>::get((*collection, item.copied()), key.to_vec())
	}
}
impl<T: Config<I>, I: 'static> InspectEnumerable<T::AccountId> for Pallet<T, I> {
	type OwnedIterator = std::vec::IntoIter<(T::CollectionId, T::ItemId)>;
	type OwnedInCollectionIterator = std::vec::IntoIter<T::ItemId>;
	fn owned(who: &T::AccountId) -> Self::OwnedIterator {
		use frame_support::StorageHasher;
		let start = frame_support::Blake2_128Concat::hash(&who.encode());
		Account::<T, I>::iter_raw_prefix(start).map(|((_, c, i), _)| (c, i)).collect::<Vec<_>>().into_iter()
	}
	fn owned_in_collection(collection: &T::CollectionId, who: &T::AccountId) -> Self::OwnedInCollectionIterator {
		use frame_support::StorageHasher;
		let mut start = frame_support::Blake2_128Concat::hash(&who.encode());
		start.extend(frame_support::Blake2_128Concat::hash(&collection.encode()));
		Account::<T, I>::iter_raw_prefix(start).map(|((_, _, i), _)| i).collect::<Vec<_>>().into_iter()
	}
}
impl<T: Config<I>, I: 'static> Create<T::AccountId, CollectionConfigFor<T, I>> for Pallet<T, I> {
	fn create_collection(_: &T::AccountId, _: &T::AccountId, _: &CollectionConfigFor<T, I>) -> Result<T::CollectionId, DispatchError> {
		Err(sp_runtime::TokenError::Unsupported.into())
	}
	fn create_collection_with_id(collection: T::CollectionId, who: &T::AccountId, admin: &T::AccountId, config: &CollectionConfigFor<T, I>) -> Result<(), DispatchError> {
		Self::do_create_collection(
			collection,
			who.clone(),
			admin.clone(),
			*config,
			Default::default(),
			Event::Created { collection, creator: who.clone(), owner: admin.clone() },
		)
	}
}
impl<T: Config<I>, I: 'static> Mutate<T::AccountId, ItemConfig> for Pallet<T, I> {
	fn mint_into(collection: &T::CollectionId, item: &T::ItemId, who: &T::AccountId, _: &ItemConfig, _: bool) -> DispatchResult {
		Self::do_mint(*collection, *item, who.clone())
	}
	fn burn(collection: &T::CollectionId, item: &T::ItemId, check: Option<&T::AccountId>) -> DispatchResult {
		Self::do_burn(*collection, *item, check)
	}
	fn set_attribute(collection: &T::CollectionId, item: &T::ItemId, key: &[u8], value: &[u8]) -> DispatchResult {
		Self::put_attribute(collection, Some(*item), key, value)
	}
	fn set_collection_attribute(collection: &T::CollectionId, key: &[u8], value: &[u8]) -> DispatchResult {
		Self::put_attribute(collection, None, key, value)
	}
	fn clear_attribute(collection: &T::CollectionId, item: &T::ItemId, key: &[u8]) -> DispatchResult {
		Attribute::<T, I>::remove((*collection, Some(*item)), key.to_vec());
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> Transfer<T::AccountId> for Pallet<T, I> {
	fn transfer(collection: &T::CollectionId, item: &T::ItemId, destination: &T::AccountId) -> DispatchResult {
		Self::do_transfer(*collection, *item, destination.clone())
	}
}
impl<T: Config<I>, I: 'static> Trading<T::AccountId, BalanceOf<T, I>> for Pallet<T, I> {
	fn buy_item(collection: &T::CollectionId, item: &T::ItemId, buyer: &T::AccountId, bid: &BalanceOf<T, I>) -> DispatchResult {
		Self::do_buy_item(*collection, *item, buyer.clone(), *bid)
	}
	fn set_price(collection: &T::CollectionId, item: &T::ItemId, sender: &T::AccountId, price: Option<BalanceOf<T, I>>, buyer: Option<T::AccountId>) -> DispatchResult {
		Self::do_set_price(*collection, *item, sender.clone(), price, buyer)
	}
	fn item_price(collection: &T::CollectionId, item: &T::ItemId) -> Option<BalanceOf<T, I>> {
		ItemPriceOf::<T, I>::get(collection, item).map(|p| p.0)
	}
}
