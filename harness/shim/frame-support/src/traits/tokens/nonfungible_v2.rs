//! A single collection of nonfungible items.
use super::nonfungibles_v2 as nonfungibles;
use crate::dispatch::DispatchResult;
use crate::traits::Get;
use std::marker::PhantomData;

pub trait Inspect<AccountId> {
	type ItemId;
	fn owner(item: &Self::ItemId) -> Option<AccountId>;
}
pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
	fn mint_into(item: &Self::ItemId, who: &AccountId, config: &ItemConfig, deposit_collection_owner: bool) -> DispatchResult;
	fn burn(item: &Self::ItemId, maybe_check_owner: Option<&AccountId>) -> DispatchResult;
}
pub trait Transfer<AccountId>: Inspect<AccountId> {
	fn transfer(item: &Self::ItemId, destination: &AccountId) -> DispatchResult;
}
pub struct ItemOf<F, A, AccountId>(PhantomData<(F, A, AccountId)>);
impl<F: nonfungibles::Inspect<AccountId>, A: Get<<F as nonfungibles::Inspect<AccountId>>::CollectionId>, AccountId> Inspect<AccountId> for ItemOf<F, A, AccountId> {
	type ItemId = <F as nonfungibles::Inspect<AccountId>>::ItemId;
	fn owner(item: &Self::ItemId) -> Option<AccountId> {
		F::owner(&A::get(), item)
	}
}
impl<F: nonfungibles::Mutate<AccountId, C>, A: Get<<F as nonfungibles::Inspect<AccountId>>::CollectionId>, AccountId, C> Mutate<AccountId, C> for ItemOf<F, A, AccountId> {
	fn mint_into(item: &Self::ItemId, who: &AccountId, config: &C, deposit: bool) -> DispatchResult {
		F::mint_into(&A::get(), item, who, config, deposit)
	}
	fn burn(item: &Self::ItemId, check: Option<&AccountId>) -> DispatchResult {
		F::burn(&A::get(), item, check)
	}
}
impl<F: nonfungibles::Transfer<AccountId>, A: Get<<F as nonfungibles::Inspect<AccountId>>::CollectionId>, AccountId> Transfer<AccountId> for ItemOf<F, A, AccountId> {
	fn transfer(item: &Self::ItemId, destination: &AccountId) -> DispatchResult {
		F::transfer(&A::get(), item, destination)
	}
}
