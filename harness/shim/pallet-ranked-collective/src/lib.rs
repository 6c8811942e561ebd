//! Stand-in for pallet-ranked-collective: ranked members and their votes in polls.
pub use frame_support::instances::*;
pub use pallet::*;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::ensure;
use frame_support::traits::{EnsureOrigin, Get, PollStatus, Polling, RankedMembers, VoteTally};
use scale_info::TypeInfo;
use sp_runtime::traits::Convert;
use sp_runtime::{DispatchError, DispatchResult, Perbill};

pub type Rank = u16;
pub type Votes = u32;
pub type PollIndexOf<T, I = ()> = <<T as Config<I>>::Polls as Polling<TallyOf<T, I>>>::Index;
pub type ClassOf<T, I = ()> = <<T as Config<I>>::Polls as Polling<TallyOf<T, I>>>::Class;
pub type TallyOf<T, I = ()> = Tally<T, I, Pallet<T, I>>;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[derive(Encode, Decode, TypeInfo, MaxEncodedLen)]
#[scale_info(skip_type_params(T, I, M))]
#[codec(mel_bound())]
pub struct Tally<T, I, M> {
	bare_ayes: Votes,
	ayes: Votes,
	nays: Votes,
	#[codec(skip)]
	dummy: core::marker::PhantomData<fn() -> (T, I, M)>,
}
impl<T, I, M> Clone for Tally<T, I, M> {
	fn clone(&self) -> Self {
		Self::from_parts(self.bare_ayes, self.ayes, self.nays)
	}
}
impl<T, I, M> PartialEq for Tally<T, I, M> {
	fn eq(&self, o: &Self) -> bool {
		(self.bare_ayes, self.ayes, self.nays) == (o.bare_ayes, o.ayes, o.nays)
	}
}
impl<T, I, M> Eq for Tally<T, I, M> {}
impl<T, I, M> core::fmt::Debug for Tally<T, I, M> {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "Tally({}, {}, {})", self.bare_ayes, self.ayes, self.nays)
	}
}
impl<T, I, M> Tally<T, I, M> {
	pub fn from_parts(bare_ayes: Votes, ayes: Votes, nays: Votes) -> Self {
		Tally { bare_ayes, ayes, nays, dummy: core::marker::PhantomData }
	}
}
pub trait MaxVoting<Class> {
	fn max_turnout(c: Class) -> Votes;
}
impl<T, I, M: MaxVoting<Class>, Class> VoteTally<Votes, Class> for Tally<T, I, M> {
	fn new(_: Class) -> Self {
		Self::from_parts(0, 0, 0)
	}
	fn ayes(&self, _: Class) -> Votes {
		self.bare_ayes
	}
	fn support(&self, class: Class) -> Perbill {
		Perbill::from_rational(self.bare_ayes, M::max_turnout(class))
	}
	fn approval(&self, _: Class) -> Perbill {
		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
	}
}
pub struct Linear;
impl Convert<Rank, Votes> for Linear {
	fn convert(r: Rank) -> Votes {
		(r + 1) as Votes
	}
}
pub struct Unit;
impl Convert<Rank, Votes> for Unit {
	fn convert(_: Rank) -> Votes {
		1
	}
}
pub struct Geometric;
impl Convert<Rank, Votes> for Geometric {
	fn convert(r: Rank) -> Votes {
		let v = (r + 1) as Votes;
		v * (v + 1) / 2
	}
}
pub struct EnsureMember<T, I, const MIN_RANK: u16>(core::marker::PhantomData<(T, I)>);
impl<T: Config<I>, I: 'static, const MIN_RANK: u16> EnsureOrigin<T::RuntimeOrigin> for EnsureMember<T, I, MIN_RANK> {
	type Success = T::AccountId;
	fn try_origin(o: T::RuntimeOrigin) -> Result<Self::Success, T::RuntimeOrigin> {
		let who = <frame_system::EnsureSigned<_> as EnsureOrigin<_>>::try_origin(o)?;
		match Members::<T, I>::get(&who) {
			Some(rank) if rank >= MIN_RANK => Ok(who),
			_ => Err(frame_system::RawOrigin::Signed(who).into()),
		}
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::StaticLookup;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type WeightInfo;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type AddOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type RemoveOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Rank>;
		type PromoteOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Rank>;
		type DemoteOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Rank>;
		type ExchangeOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type Polls: Polling<TallyOf<Self, I>, Votes = Votes>;
		type MinRankOfClass: Convert<ClassOf<Self, I>, Rank>;
		type MemberSwappedHandler;
		type VoteWeight: Convert<Rank, Votes>;
		type MaxMemberCount;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type Members<T: Config<I>, I: 'static = ()> = StorageMap<_, Twox64Concat, T::AccountId, Rank>;
	#[pallet::storage]
	pub type Voting<T: Config<I>, I: 'static = ()> = StorageDoubleMap<_, Blake2_128Concat, PollIndexOf<T, I>, Twox64Concat, T::AccountId, (bool, Votes)>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		MemberAdded { who: T::AccountId },
		RankChanged { who: T::AccountId, rank: Rank },
		MemberRemoved { who: T::AccountId, rank: Rank },
		Voted { who: T::AccountId, poll: PollIndexOf<T, I>, aye: bool, votes: Votes, tally: TallyOf<T, I> },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		AlreadyMember,
		NotMember,
		NotPolling,
		RankTooLow,
		NoPermission,
		InvalidWitness,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn add_member(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			T::AddOrigin::ensure_origin(origin)?;
			Self::do_add_member(T::Lookup::lookup(who)?)
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn promote_member(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			let max_rank = T::PromoteOrigin::ensure_origin(origin)?;
			let who = T::Lookup::lookup(who)?;
			let rank = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
			ensure!(max_rank > rank, Error::<T, I>::NoPermission);
			Self::do_promote(who)
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn demote_member(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			let max_rank = T::DemoteOrigin::ensure_origin(origin)?;
			let who = T::Lookup::lookup(who)?;
			let rank = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
			ensure!(max_rank >= rank, Error::<T, I>::NoPermission);
			Self::do_demote(who)
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn exchange_member(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, new_who: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			T::ExchangeOrigin::ensure_origin(origin)?;
			let _ = (who, new_who);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn remove_member(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, min_rank: Rank) -> DispatchResult {
			let max_rank = T::RemoveOrigin::ensure_origin(origin)?;
			let who = T::Lookup::lookup(who)?;
			let rank = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
			ensure!(min_rank >= rank, Error::<T, I>::InvalidWitness);
			ensure!(max_rank >= rank, Error::<T, I>::NoPermission);
			Members::<T, I>::remove(&who);
			Self::deposit_event(Event::MemberRemoved { who, rank });
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn vote(origin: OriginFor<T>, poll: PollIndexOf<T, I>, aye: bool) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let rank = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
			let (tally, votes) = T::Polls::try_access_poll(poll, |status| -> Result<(TallyOf<T, I>, Votes), DispatchError> {
				match status {
					PollStatus::Ongoing(tally, class) => {
						let min_rank = T::MinRankOfClass::convert(class);
						ensure!(rank >= min_rank, Error::<T, I>::RankTooLow);
						if let Some((was_aye, v)) = Voting::<T, I>::get(poll, &who) {
							if was_aye {
								tally.bare_ayes = tally.bare_ayes.saturating_sub(1);
								tally.ayes = tally.ayes.saturating_sub(v);
							} else {
								tally.nays = tally.nays.saturating_sub(v);
							}
						}
						let votes = T::VoteWeight::convert(rank - min_rank);
						if aye {
							tally.bare_ayes = tally.bare_ayes.saturating_add(1);
							tally.ayes = tally.ayes.saturating_add(votes);
						} else {
							tally.nays = tally.nays.saturating_add(votes);
						}
						Voting::<T, I>::insert(poll, &who, (aye, votes));
						Ok((tally.clone(), votes))
					}
					_ => Err(Error::<T, I>::NotPolling.into()),
				}
			})?;
			Self::deposit_event(Event::Voted { who, poll, aye, votes, tally });
			Ok(())
		}
	}
}
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	fn do_add_member(who: T::AccountId) -> DispatchResult {
		ensure!(!Members::<T, I>::contains_key(&who), Error::<T, I>::AlreadyMember);
		Members::<T, I>::insert(&who, 0);
		Self::deposit_event(Event::MemberAdded { who });
		Ok(())
	}
	fn do_promote(who: T::AccountId) -> DispatchResult {
		let rank = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
		let rank = rank.checked_add(1).ok_or(sp_runtime::ArithmeticError::Overflow)?;
		Members::<T, I>::insert(&who, rank);
		Self::deposit_event(Event::RankChanged { who, rank });
		Ok(())
	}
	fn do_demote(who: T::AccountId) -> DispatchResult {
		let rank = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
		match rank.checked_sub(1) {
			None => {
				Members::<T, I>::remove(&who);
				Self::deposit_event(Event::MemberRemoved { who, rank: 0 });
			}
			Some(rank) => {
				Members::<T, I>::insert(&who, rank);
				Self::deposit_event(Event::RankChanged { who, rank });
			}
		}
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> MaxVoting<ClassOf<T, I>> for Pallet<T, I> {
	fn max_turnout(class: ClassOf<T, I>) -> Votes {
		let min = T::MinRankOfClass::convert(class);
		Members::<T, I>::iter().filter(|x| x.1 >= min).count() as Votes
	}
}
impl<T: Config<I>, I: 'static> RankedMembers for Pallet<T, I> {
	type AccountId = T::AccountId;
	type Rank = Rank;
	fn min_rank() -> Rank {
		0
	}
	fn rank_of(who: &T::AccountId) -> Option<Rank> {
		Members::<T, I>::get(who)
	}
	fn induct(who: &T::AccountId) -> DispatchResult {
		Self::do_add_member(who.clone())
	}
	fn promote(who: &T::AccountId) -> DispatchResult {
		Self::do_promote(who.clone())
	}
	fn demote(who: &T::AccountId) -> DispatchResult {
		Self::do_demote(who.clone())
	}
}
