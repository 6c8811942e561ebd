use sp_runtime::traits::AtLeast16BitUnsigned;
use sp_runtime::DispatchResult;

pub trait RankedMembers {
	type AccountId;
	type Rank: AtLeast16BitUnsigned;
	fn min_rank() -> Self::Rank;
	fn rank_of(who: &Self::AccountId) -> Option<Self::Rank>;
	fn induct(who: &Self::AccountId) -> DispatchResult;
	fn promote(who: &Self::AccountId) -> DispatchResult;
	fn demote(who: &Self::AccountId) -> DispatchResult;
}
pub trait RankedMembersSwapHandler<AccountId, Rank> {}
pub trait ChangeMembers<AccountId> {}
