//! Stand-in for fc-traits-memberships: memberships as items of per-group collections.
//!
//! A membership waits in some collection, owned by the account that owns the group's collection. Assigning it
//! moves it to the group's collection in the name of the member; releasing it moves it back.
use codec::{Decode, Encode, MaxEncodedLen};
use core::num::NonZeroU8;
use frame_support::traits::nonfungibles_v2 as nfts;
use sp_runtime::{DispatchError, DispatchResult};

#[derive(Clone, Copy, Debug, Default, Decode, Encode, Eq, MaxEncodedLen, PartialEq, PartialOrd, Ord, scale_info::TypeInfo)]
pub struct GenericRank(pub u8);
impl GenericRank {
	pub const MIN: Self = GenericRank(0);
	pub const MAX: Self = GenericRank(u8::MAX);
	pub const ADMIN: Self = GenericRank(u8::MAX);
	pub fn promote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_add(n.get()))
	}
	pub fn demote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_sub(n.get()))
	}
}
impl From<u8> for GenericRank {
	fn from(r: u8) -> Self {
		GenericRank(r)
	}
}
impl From<GenericRank> for u8 {
	fn from(r: GenericRank) -> u8 {
		r.0
	}
}
impl From<GenericRank> for u32 {
	fn from(r: GenericRank) -> u32 {
		r.0 as u32
	}
}

pub trait Inspect<AccountId> {
	type Group;
	type Membership;
	fn user_memberships(who: &AccountId, maybe_group: Option<Self::Group>) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>>;
	fn is_member_of(group: &Self::Group, who: &AccountId) -> bool;
	fn check_membership(who: &AccountId, m: &Self::Membership) -> Option<Self::Group>;
	fn members_total(group: &Self::Group) -> u32;
}
pub trait Manager<AccountId, ItemConfig>: Inspect<AccountId> {
	fn assign(group: &Self::Group, m: &Self::Membership, who: &AccountId) -> DispatchResult;
	fn release(group: &Self::Group, m: &Self::Membership) -> DispatchResult;
}
pub trait Rank<AccountId, ItemConfig>: Inspect<AccountId> {
	fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<GenericRank>;
	fn set_rank(group: &Self::Group, m: &Self::Membership, rank: impl Into<GenericRank>) -> DispatchResult;
	fn ranks_total(group: &Self::Group) -> u32;
}

const MEMBERS: &[u8] = b"membership_member_total";
const RANKS: &[u8] = b"membership_member_rank_total";
const RANK: &[u8] = b"membership_member_rank";
const POOL: &[u8] = b"membership_pool";

fn number<F: nfts::Inspect<A>, A>(group: &F::CollectionId, key: &[u8]) -> u32 {
	F::system_attribute(group, None, key).and_then(|v| u32::decode(&mut &v[..]).ok()).unwrap_or(0)
}

impl<F, A> Inspect<A> for F
where
	A: 'static,
	F: nfts::InspectEnumerable<A>,
	F::CollectionId: Clone + 'static,
	F::ItemId: PartialEq + 'static,
	F::OwnedIterator: 'static,
	F::OwnedInCollectionIterator: 'static,
{
	type Group = F::CollectionId;
	type Membership = F::ItemId;
	fn user_memberships(who: &A, maybe_group: Option<Self::Group>) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>> {
		match maybe_group {
			Some(g) => Box::new(F::owned_in_collection(&g, who).map(move |m| (g.clone(), m))),
			None => Box::new(F::owned(who)),
		}
	}
	fn is_member_of(group: &Self::Group, who: &A) -> bool {
		F::owned_in_collection(group, who).next().is_some()
	}
	fn check_membership(who: &A, m: &Self::Membership) -> Option<Self::Group> {
		F::owned(who).find_map(|(g, id)| (&id == m).then_some(g))
	}
	fn members_total(group: &Self::Group) -> u32 {
		number::<F, A>(group, MEMBERS)
	}
}
impl<F, A, C> Manager<A, C> for F
where
	A: 'static,
	C: Default,
	F: nfts::InspectEnumerable<A> + nfts::Mutate<A, C>,
	F::CollectionId: Clone + Encode + Decode + 'static,
	F::ItemId: PartialEq + 'static,
	F::OwnedIterator: 'static,
	F::OwnedInCollectionIterator: 'static,
{
	fn assign(group: &Self::Group, m: &Self::Membership, who: &A) -> DispatchResult {
		let owner = F::collection_owner(group).ok_or(DispatchError::Other("UnknownGroup"))?;
		let (pool, _) = F::owned(&owner).find(|(_, id)| id == m).ok_or(DispatchError::Other("MembershipUnavailable"))?;
		F::burn(&pool, m, Some(&owner))?;
		F::mint_into(group, m, who, &C::default(), true)?;
		F::set_attribute(group, m, POOL, &pool.encode())?;
		F::set_attribute(group, m, RANK, &GenericRank::default().encode())?;
		F::set_collection_attribute(group, MEMBERS, &number::<F, A>(group, MEMBERS).saturating_add(1).encode())
	}
	fn release(group: &Self::Group, m: &Self::Membership) -> DispatchResult {
		let owner = F::collection_owner(group).ok_or(DispatchError::Other("UnknownGroup"))?;
		let pool = F::system_attribute(group, Some(m), POOL)
			.and_then(|v| F::CollectionId::decode(&mut &v[..]).ok())
			.ok_or(DispatchError::Other("NotAssigned"))?;
		let rank = F::system_attribute(group, Some(m), RANK).and_then(|v| GenericRank::decode(&mut &v[..]).ok()).unwrap_or_default();
		F::burn(group, m, None)?;
		F::mint_into(&pool, m, &owner, &C::default(), true)?;
		F::set_attribute(group, m, RANK, &GenericRank::default().encode())?;
		F::set_collection_attribute(group, RANKS, &number::<F, A>(group, RANKS).saturating_sub(rank.0 as u32).encode())?;
		F::set_collection_attribute(group, MEMBERS, &number::<F, A>(group, MEMBERS).saturating_sub(1).encode())
	}
}
impl<F, A, C> Rank<A, C> for F
where
	A: 'static,
	F: nfts::InspectEnumerable<A> + nfts::Mutate<A, C>,
	F::CollectionId: Clone + 'static,
	F::ItemId: PartialEq + 'static,
	F::OwnedIterator: 'static,
	F::OwnedInCollectionIterator: 'static,
{
	fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<GenericRank> {
		F::owner(group, m)?;
		Some(F::system_attribute(group, Some(m), RANK).and_then(|v| GenericRank::decode(&mut &v[..]).ok()).unwrap_or_default())
	}
	fn set_rank(group: &Self::Group, m: &Self::Membership, rank: impl Into<GenericRank>) -> DispatchResult {
		let rank = rank.into();
		let old = <F as Rank<A, C>>::rank_of(group, m).unwrap_or_default();
		F::set_attribute(group, m, RANK, &rank.encode())?;
		let total = number::<F, A>(group, RANKS).saturating_add(rank.0 as u32).saturating_sub(old.0 as u32);
		F::set_collection_attribute(group, RANKS, &total.encode())
	}
	fn ranks_total(group: &Self::Group) -> u32 {
		number::<F, A>(group, RANKS)
	}
}
