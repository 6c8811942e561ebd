//! Multiple collections of nonfungible items.
use crate::dispatch::DispatchResult;
use codec::{Decode, Encode};
use sp_runtime::{DispatchError, TokenError};

pub trait Inspect<AccountId> {
	type ItemId;
	type CollectionId;
	fn owner(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<AccountId>;
	fn collection_owner(_collection: &Self::CollectionId) -> Option<AccountId> {
		None
	}
	fn attribute(_collection: &Self::CollectionId, _item: &Self::ItemId, _key: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn custom_attribute(_account: &AccountId, _collection: &Self::CollectionId, _item: &Self::ItemId, _key: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn system_attribute(_collection: &Self::CollectionId, _item: Option<&Self::ItemId>, _key: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn typed_attribute<K: Encode, V: Decode>(collection: &Self::CollectionId, item: &Self::ItemId, key: &K) -> Option<V> {
		key.using_encoded(|d| Self::attribute(collection, item, d)).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn typed_system_attribute<K: Encode, V: Decode>(collection: &Self::CollectionId, item: Option<&Self::ItemId>, key: &K) -> Option<V> {
		key.using_encoded(|d| Self::system_attribute(collection, item, d)).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn can_transfer(_collection: &Self::CollectionId, _item: &Self::ItemId) -> bool {
		true
	}
}
pub trait InspectRole<AccountId>: Inspect<AccountId> {}
pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {
	type OwnedIterator: Iterator<Item = (Self::CollectionId, Self::ItemId)>;
	type OwnedInCollectionIterator: Iterator<Item = Self::ItemId>;
	fn owned(who: &AccountId) -> Self::OwnedIterator;
	fn owned_in_collection(collection: &Self::CollectionId, who: &AccountId) -> Self::OwnedInCollectionIterator;
}
pub trait Create<AccountId, CollectionConfig>: Inspect<AccountId> {
	fn create_collection(who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> Result<Self::CollectionId, DispatchError>;
	fn create_collection_with_id(collection: Self::CollectionId, who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> Result<(), DispatchError>;
}
pub trait Destroy<AccountId>: Inspect<AccountId> {}
pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
	fn mint_into(_collection: &Self::CollectionId, _item: &Self::ItemId, _who: &AccountId, _config: &ItemConfig, _deposit_collection_owner: bool) -> DispatchResult {
		Err(TokenError::Unsupported.into())
	}
	fn burn(_collection: &Self::CollectionId, _item: &Self::ItemId, _maybe_check_owner: Option<&AccountId>) -> DispatchResult {
		Err(TokenError::Unsupported.into())
	}
	fn set_attribute(_collection: &Self::CollectionId, _item: &Self::ItemId, _key: &[u8], _value: &[u8]) -> DispatchResult {
		Err(TokenError::Unsupported.into())
	}
	fn set_typed_attribute<K: Encode, V: Encode>(collection: &Self::CollectionId, item: &Self::ItemId, key: &K, value: &V) -> DispatchResult {
		key.using_encoded(|k| value.using_encoded(|v| Self::set_attribute(collection, item, k, v)))
	}
	fn set_collection_attribute(_collection: &Self::CollectionId, _key: &[u8], _value: &[u8]) -> DispatchResult {
		Err(TokenError::Unsupported.into())
	}
	fn clear_attribute(_collection: &Self::CollectionId, _item: &Self::ItemId, _key: &[u8]) -> DispatchResult {
		Err(TokenError::Unsupported.into())
	}
}
pub trait Transfer<AccountId>: Inspect<AccountId> {
	fn transfer(collection: &Self::CollectionId, item: &Self::ItemId, destination: &AccountId) -> DispatchResult;
}
pub trait Trading<AccountId, ItemPrice>: Inspect<AccountId> {
	fn buy_item(collection: &Self::CollectionId, item: &Self::ItemId, buyer: &AccountId, bid_price: &ItemPrice) -> DispatchResult;
	fn set_price(collection: &Self::CollectionId, item: &Self::ItemId, sender: &AccountId, price: Option<ItemPrice>, whitelisted_buyer: Option<AccountId>) -> DispatchResult;
	fn item_price(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<ItemPrice>;
}
