//! Stand-in for pallet-referenda: the life of a referendum (submission, queue, preparation, decision, confirmation,
//! enactment), its deposits and its alarms.
pub use frame_support::instances::*;
pub use pallet::*;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::dispatch::{DispatchResult, GetDispatchInfo};
use frame_support::ensure;
use frame_support::traits::schedule::{v3::Anon as ScheduleAnon, v3::Named as ScheduleNamed, DispatchTime};
use frame_support::traits::{Currency, Get, PollStatus, Polling, QueryPreimage, ReservableCurrency, StorePreimage, VoteTally};
use frame_system::pallet_prelude::BlockNumberFor;
use scale_info::TypeInfo;
use sp_runtime::traits::{Dispatchable, One, Saturating, Zero};
use sp_runtime::{DispatchError, PerThing, Perbill};

mod types;
pub use types::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}
#[doc(hidden)]
pub mod __private {
	pub use frame_support::traits::Get;
	pub use std::vec::Vec;
}

const ASSEMBLY_ID: [u8; 8] = *b"assembly";

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::EnsureOriginWithArg;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin>
			+ From<Call<Self, I>>
			+ IsType<<Self as frame_system::Config>::RuntimeCall>
			+ From<frame_system::Call<Self>>;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type Scheduler: ScheduleAnon<BlockNumberFor<Self>, CallOf<Self, I>, PalletsOriginOf<Self>, Hasher = Self::Hashing>
			+ ScheduleNamed<BlockNumberFor<Self>, CallOf<Self, I>, PalletsOriginOf<Self>, Hasher = Self::Hashing>;
		type Currency: ReservableCurrency<Self::AccountId>;
		type SubmitOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, PalletsOriginOf<Self>, Success = Self::AccountId>;
		type CancelOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type KillOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type Slash: frame_support::traits::OnUnbalanced<BalanceOf<Self, I>>;
		type Votes: Parameter + Member + Ord + PartialOrd + Copy + codec::HasCompact + MaxEncodedLen;
		type Tally: VoteTally<Self::Votes, TrackIdOf<Self, I>> + Clone + codec::Codec + Eq + core::fmt::Debug + TypeInfo + MaxEncodedLen + 'static;
		type SubmissionDeposit: Get<BalanceOf<Self, I>>;
		type MaxQueued: Get<u32>;
		type UndecidingTimeout: Get<BlockNumberFor<Self>>;
		type AlarmInterval: Get<BlockNumberFor<Self>>;
		type Tracks: TracksInfo<BalanceOf<Self, I>, BlockNumberFor<Self>, RuntimeOrigin = PalletsOriginOf<Self>>;
		type Preimages: QueryPreimage<H = Self::Hashing> + StorePreimage;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);

	#[pallet::storage]
	pub type ReferendumCount<T, I = ()> = StorageValue<_, ReferendumIndex, ValueQuery>;
	#[pallet::storage]
	pub type ReferendumInfoFor<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, ReferendumIndex, ReferendumInfoOf<T, I>>;
	#[pallet::storage]
	pub type TrackQueue<T: Config<I>, I: 'static = ()> = StorageMap<_, Twox64Concat, TrackIdOf<T, I>, Vec<(ReferendumIndex, T::Votes)>, ValueQuery>;
	#[pallet::storage]
	pub type DecidingCount<T: Config<I>, I: 'static = ()> = StorageMap<_, Twox64Concat, TrackIdOf<T, I>, u32, ValueQuery>;

	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Submitted { index: ReferendumIndex, track: TrackIdOf<T, I>, proposal: BoundedCallOf<T, I> },
		DecisionDepositPlaced { index: ReferendumIndex, who: T::AccountId, amount: BalanceOf<T, I> },
		DecisionDepositRefunded { index: ReferendumIndex, who: T::AccountId, amount: BalanceOf<T, I> },
		DepositSlashed { who: T::AccountId, amount: BalanceOf<T, I> },
		DecisionStarted { index: ReferendumIndex, track: TrackIdOf<T, I>, proposal: BoundedCallOf<T, I>, tally: T::Tally },
		ConfirmStarted { index: ReferendumIndex },
		ConfirmAborted { index: ReferendumIndex },
		Confirmed { index: ReferendumIndex, tally: T::Tally },
		Approved { index: ReferendumIndex },
		Rejected { index: ReferendumIndex, tally: T::Tally },
		TimedOut { index: ReferendumIndex, tally: T::Tally },
		Cancelled { index: ReferendumIndex, tally: T::Tally },
		Killed { index: ReferendumIndex, tally: T::Tally },
		SubmissionDepositRefunded { index: ReferendumIndex, who: T::AccountId, amount: BalanceOf<T, I> },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NotOngoing,
		HasDeposit,
		BadTrack,
		Full,
		QueueEmpty,
		BadReferendum,
		NothingToDo,
		NoTrack,
		Unfinished,
		NoPermission,
		NoDeposit,
		BadStatus,
		PreimageNotExist,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn submit(
			origin: OriginFor<T>,
			proposal_origin: Box<PalletsOriginOf<T>>,
			proposal: BoundedCallOf<T, I>,
			enactment_moment: DispatchTime<BlockNumberFor<T>>,
		) -> DispatchResult {
			let proposal_origin = *proposal_origin;
			let who = T::SubmitOrigin::ensure_origin(origin, &proposal_origin)?;
			let track = T::Tracks::track_for(&proposal_origin).map_err(|_| Error::<T, I>::NoTrack)?;
			let submission_deposit = Self::take_deposit(who, T::SubmissionDeposit::get())?;
			let index = ReferendumCount::<T, I>::mutate(|x| {
				let r = *x;
				*x += 1;
				r
			});
			let now = frame_system::Pallet::<T>::block_number();
			let alarm = Self::set_alarm(Call::nudge_referendum { index }, now.saturating_add(T::UndecidingTimeout::get()));
			let status = ReferendumStatus {
				track,
				origin: proposal_origin,
				proposal: proposal.clone(),
				enactment: enactment_moment,
				submitted: now,
				submission_deposit,
				decision_deposit: None,
				deciding: None,
				tally: T::Tally::new(track),
				in_queue: false,
				alarm,
			};
			ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
			Self::deposit_event(Event::Submitted { index, track, proposal });
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn place_decision_deposit(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let mut status = Self::ensure_ongoing(index)?;
			ensure!(status.decision_deposit.is_none(), Error::<T, I>::HasDeposit);
			let track = Self::track(status.track).ok_or(Error::<T, I>::NoTrack)?;
			status.decision_deposit = Some(Self::take_deposit(who.clone(), track.decision_deposit)?);
			let now = frame_system::Pallet::<T>::block_number();
			let (info, _) = Self::service_referendum(now, index, status);
			ReferendumInfoFor::<T, I>::insert(index, info);
			Self::deposit_event(Event::DecisionDepositPlaced { index, who, amount: track.decision_deposit });
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn refund_decision_deposit(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			frame_system::ensure_signed_or_root(origin)?;
			let mut info = ReferendumInfoFor::<T, I>::get(index).ok_or(Error::<T, I>::BadReferendum)?;
			let deposit = info.take_decision_deposit().map_err(|_| Error::<T, I>::Unfinished)?.ok_or(Error::<T, I>::NoDeposit)?;
			Self::refund_deposit(Some(deposit.clone()));
			ReferendumInfoFor::<T, I>::insert(index, info);
			Self::deposit_event(Event::DecisionDepositRefunded { index, who: deposit.who, amount: deposit.amount });
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn cancel(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			T::CancelOrigin::ensure_origin(origin)?;
			let status = Self::ensure_ongoing(index)?;
			if let Some((_, last_alarm)) = status.alarm {
				let _ = <T::Scheduler as ScheduleAnon<_, _, _>>::cancel(last_alarm);
			}
			Self::note_one_fewer_deciding(status.track, status.deciding.is_some());
			Self::deposit_event(Event::Cancelled { index, tally: status.tally });
			let now = frame_system::Pallet::<T>::block_number();
			ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Cancelled(now, Some(status.submission_deposit), status.decision_deposit));
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn kill(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			T::KillOrigin::ensure_origin(origin)?;
			let status = Self::ensure_ongoing(index)?;
			if let Some((_, last_alarm)) = status.alarm {
				let _ = <T::Scheduler as ScheduleAnon<_, _, _>>::cancel(last_alarm);
			}
			Self::note_one_fewer_deciding(status.track, status.deciding.is_some());
			Self::deposit_event(Event::Killed { index, tally: status.tally });
			Self::slash_deposit(Some(status.submission_deposit));
			Self::slash_deposit(status.decision_deposit);
			ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Killed(frame_system::Pallet::<T>::block_number()));
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn nudge_referendum(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			ensure_root(origin)?;
			let now = frame_system::Pallet::<T>::block_number();
			let mut status = Self::ensure_ongoing(index)?;
			status.alarm = None;
			let (info, dirty) = Self::service_referendum(now, index, status);
			if dirty {
				ReferendumInfoFor::<T, I>::insert(index, info);
			}
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn one_fewer_deciding(origin: OriginFor<T>, track: TrackIdOf<T, I>) -> DispatchResult {
			ensure_root(origin)?;
			let track_info = Self::track(track).ok_or(Error::<T, I>::NoTrack)?;
			let mut queue = TrackQueue::<T, I>::get(track);
			// who waits longest with most ayes takes the place; whose poll is over has lost theirs
			while let Some((index, _)) = queue.pop() {
				let Ok(mut status) = Self::ensure_ongoing(index) else { continue };
				let now = frame_system::Pallet::<T>::block_number();
				let (maybe_alarm, _) = Self::begin_deciding(&mut status, index, now, &track_info);
				if let Some(set_alarm) = maybe_alarm {
					Self::ensure_alarm_at(&mut status, index, set_alarm);
				}
				ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
				TrackQueue::<T, I>::insert(track, queue);
				return Ok(());
			}
			DecidingCount::<T, I>::mutate(track, |x| *x = x.saturating_sub(1));
			Ok(())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn refund_submission_deposit(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			frame_system::ensure_signed_or_root(origin)?;
			let mut info = ReferendumInfoFor::<T, I>::get(index).ok_or(Error::<T, I>::BadReferendum)?;
			let deposit = info.take_submission_deposit().map_err(|_| Error::<T, I>::BadStatus)?.ok_or(Error::<T, I>::NoDeposit)?;
			Self::refund_deposit(Some(deposit.clone()));
			ReferendumInfoFor::<T, I>::insert(index, info);
			Self::deposit_event(Event::SubmissionDepositRefunded { index, who: deposit.who, amount: deposit.amount });
			Ok(())
		}
	}
}

impl<T: Config<I>, I: 'static> Polling<T::Tally> for Pallet<T, I> {
	type Index = ReferendumIndex;
	type Votes = VotesOf<T, I>;
	type Moment = BlockNumberFor<T>;
	type Class = TrackIdOf<T, I>;
	fn classes() -> Vec<Self::Class> {
		T::Tracks::tracks().map(|x| x.id).collect()
	}
	fn access_poll<R>(index: Self::Index, f: impl FnOnce(PollStatus<&mut T::Tally, BlockNumberFor<T>, TrackIdOf<T, I>>) -> R) -> R {
		match ReferendumInfoFor::<T, I>::get(index) {
			Some(ReferendumInfo::Ongoing(mut status)) => {
				let result = f(PollStatus::Ongoing(&mut status.tally, status.track));
				let now = frame_system::Pallet::<T>::block_number();
				Self::ensure_alarm_at(&mut status, index, now + One::one());
				ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
				result
			}
			Some(ReferendumInfo::Approved(end, ..)) => f(PollStatus::Completed(end, true)),
			Some(ReferendumInfo::Rejected(end, ..)) => f(PollStatus::Completed(end, false)),
			_ => f(PollStatus::None),
		}
	}
	fn try_access_poll<R>(
		index: Self::Index,
		f: impl FnOnce(PollStatus<&mut T::Tally, BlockNumberFor<T>, TrackIdOf<T, I>>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError> {
		match ReferendumInfoFor::<T, I>::get(index) {
			Some(ReferendumInfo::Ongoing(mut status)) => {
				let result = f(PollStatus::Ongoing(&mut status.tally, status.track))?;
				let now = frame_system::Pallet::<T>::block_number();
				Self::ensure_alarm_at(&mut status, index, now + One::one());
				ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
				Ok(result)
			}
			Some(ReferendumInfo::Approved(end, ..)) => f(PollStatus::Completed(end, true)),
			Some(ReferendumInfo::Rejected(end, ..)) => f(PollStatus::Completed(end, false)),
			_ => f(PollStatus::None),
		}
	}
	fn as_ongoing(index: Self::Index) -> Option<(T::Tally, TrackIdOf<T, I>)> {
		Self::ensure_ongoing(index).ok().map(|x| (x.tally, x.track))
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn ensure_ongoing(index: ReferendumIndex) -> Result<ReferendumStatusOf<T, I>, DispatchError> {
		match ReferendumInfoFor::<T, I>::get(index) {
			Some(ReferendumInfo::Ongoing(status)) => Ok(status),
			_ => Err(Error::<T, I>::NotOngoing.into()),
		}
	}
	fn track(id: TrackIdOf<T, I>) -> Option<TrackInfoOf<T, I>> {
		T::Tracks::info(id).map(|t| t.into_owned())
	}
	fn schedule_enactment(index: ReferendumIndex, track: &TrackInfoOf<T, I>, desired: DispatchTime<BlockNumberFor<T>>, origin: PalletsOriginOf<T>, call: BoundedCallOf<T, I>) {
		let now = frame_system::Pallet::<T>::block_number();
		let earliest_allowed = now.saturating_add(track.min_enactment_period.max(One::one()));
		let desired = desired.evaluate(now);
		let task_id = sp_core::hashing::blake2_256(&(ASSEMBLY_ID, "enactment", index).encode());
		let _ = <T::Scheduler as ScheduleNamed<_, _, _>>::schedule_named(task_id, DispatchTime::At(desired.max(earliest_allowed)), None, 63, origin, call);
	}
	fn set_alarm(call: Call<T, I>, when: BlockNumberFor<T>) -> Option<(BlockNumberFor<T>, ScheduleAddressOf<T, I>)> {
		let alarm_interval = T::AlarmInterval::get().max(One::one());
		let when = (when.saturating_add(alarm_interval.saturating_sub(One::one())) / alarm_interval).saturating_mul(alarm_interval);
		let call: CallOf<T, I> = call.into();
		let call = T::Preimages::bound(call).ok()?;
		<T::Scheduler as ScheduleAnon<_, _, _>>::schedule(DispatchTime::At(when), None, 128u8, frame_system::RawOrigin::Root.into(), call)
			.ok()
			.map(|x| (when, x))
	}
	fn begin_deciding(status: &mut ReferendumStatusOf<T, I>, index: ReferendumIndex, now: BlockNumberFor<T>, track: &TrackInfoOf<T, I>) -> (Option<BlockNumberFor<T>>, bool) {
		let is_passing = Self::is_passing(&status.tally, Zero::zero(), track.decision_period, &track.min_support, &track.min_approval, status.track);
		status.in_queue = false;
		Self::deposit_event(Event::DecisionStarted { index, tally: status.tally.clone(), proposal: status.proposal.clone(), track: status.track });
		let confirming = if is_passing {
			Self::deposit_event(Event::ConfirmStarted { index });
			Some(now.saturating_add(track.confirm_period))
		} else {
			None
		};
		let mut deciding = DecidingStatus { since: now, confirming };
		let alarm = Self::decision_time(&mut deciding, &status.tally, status.track, track).max(now.saturating_add(One::one()));
		status.deciding = Some(deciding);
		(Some(alarm), confirming.is_some())
	}
	fn ready_for_deciding(now: BlockNumberFor<T>, track: &TrackInfoOf<T, I>, index: ReferendumIndex, status: &mut ReferendumStatusOf<T, I>) -> (Option<BlockNumberFor<T>>, bool) {
		let deciding_count = DecidingCount::<T, I>::get(status.track);
		if deciding_count < track.max_deciding {
			DecidingCount::<T, I>::insert(status.track, deciding_count.saturating_add(1));
			Self::begin_deciding(status, index, now, track)
		} else {
			let item = (index, status.tally.ayes(status.track));
			status.in_queue = true;
			TrackQueue::<T, I>::mutate(status.track, |q| {
				let at = q.partition_point(|x| x.1 < item.1);
				q.insert(at, item);
				if q.len() as u32 > T::MaxQueued::get() {
					q.remove(0);
				}
			});
			(None, false)
		}
	}
	fn note_one_fewer_deciding(track: TrackIdOf<T, I>, was_deciding: bool) {
		if !was_deciding {
			return;
		}
		let now = frame_system::Pallet::<T>::block_number();
		let next_block = now + One::one();
		Self::set_alarm(Call::one_fewer_deciding { track }, next_block);
	}
	fn ensure_alarm_at(status: &mut ReferendumStatusOf<T, I>, index: ReferendumIndex, alarm: BlockNumberFor<T>) -> bool {
		if status.alarm.as_ref().map_or(true, |&(when, _)| when != alarm) {
			Self::ensure_no_alarm(status);
			status.alarm = Self::set_alarm(Call::nudge_referendum { index }, alarm);
			true
		} else {
			false
		}
	}
	fn ensure_no_alarm(status: &mut ReferendumStatusOf<T, I>) {
		if let Some((_, last_alarm)) = status.alarm.take() {
			let _ = <T::Scheduler as ScheduleAnon<_, _, _>>::cancel(last_alarm);
		}
	}
	fn service_referendum(now: BlockNumberFor<T>, index: ReferendumIndex, mut status: ReferendumStatusOf<T, I>) -> (ReferendumInfoOf<T, I>, bool) {
		let mut dirty = false;
		let Some(track) = Self::track(status.track) else {
			return (ReferendumInfo::Ongoing(status), false);
		};
		let timeout = status.submitted + T::UndecidingTimeout::get();
		let mut alarm = <BlockNumberFor<T> as sp_runtime::traits::Bounded>::max_value();
		match status.deciding.take() {
			None => {
				if status.in_queue {
					let ayes = status.tally.ayes(status.track);
					let mut queue = TrackQueue::<T, I>::get(status.track);
					let old_pos = queue.iter().position(|(x, _)| *x == index);
					let new_pos = queue.partition_point(|x| x.1 < ayes);
					let branch = if let Some(p) = old_pos {
						let np = if new_pos > p { new_pos - 1 } else { new_pos };
						queue.remove(p);
						queue.insert(np, (index, ayes));
						true
					} else if new_pos > 0 {
						queue.insert(new_pos, (index, ayes));
						if queue.len() as u32 > T::MaxQueued::get() {
							queue.remove(0);
						}
						true
					} else {
						false
					};
					if branch {
						TrackQueue::<T, I>::insert(status.track, queue);
					}
				} else {
					if status.decision_deposit.is_some() {
						let prepare_end = status.submitted.saturating_add(track.prepare_period);
						if now >= prepare_end {
							let (maybe_alarm, _) = Self::ready_for_deciding(now, &track, index, &mut status);
							if let Some(set_alarm) = maybe_alarm {
								alarm = alarm.min(set_alarm);
							}
							dirty = true;
						} else {
							alarm = alarm.min(prepare_end);
						}
					} else {
						alarm = timeout;
					}
				}
				if status.deciding.is_none() && now >= timeout && !status.in_queue {
					Self::ensure_no_alarm(&mut status);
					Self::deposit_event(Event::TimedOut { index, tally: status.tally });
					return (ReferendumInfo::TimedOut(now, Some(status.submission_deposit), status.decision_deposit), true);
				}
			}
			Some(deciding) => {
				let is_passing = Self::is_passing(
					&status.tally,
					now.saturating_sub(deciding.since),
					track.decision_period,
					&track.min_support,
					&track.min_approval,
					status.track,
				);
				let mut deciding = deciding;
				if is_passing {
					match deciding.confirming {
						Some(t) if now >= t => {
							Self::ensure_no_alarm(&mut status);
							Self::note_one_fewer_deciding(status.track, true);
							let (desired, call) = (status.enactment, status.proposal);
							Self::schedule_enactment(index, &track, desired, status.origin, call);
							Self::deposit_event(Event::Confirmed { index, tally: status.tally });
							return (ReferendumInfo::Approved(now, Some(status.submission_deposit), status.decision_deposit), true);
						}
						Some(_) => (),
						None => {
							dirty = true;
							deciding.confirming = Some(now.saturating_add(track.confirm_period));
							Self::deposit_event(Event::ConfirmStarted { index });
						}
					}
				} else {
					if now >= deciding.since.saturating_add(track.decision_period) {
						Self::ensure_no_alarm(&mut status);
						Self::note_one_fewer_deciding(status.track, true);
						Self::deposit_event(Event::Rejected { index, tally: status.tally });
						return (ReferendumInfo::Rejected(now, Some(status.submission_deposit), status.decision_deposit), true);
					}
					if deciding.confirming.is_some() {
						dirty = true;
						deciding.confirming = None;
						Self::deposit_event(Event::ConfirmAborted { index });
					}
				}
				alarm = alarm.min(Self::decision_time(&mut deciding, &status.tally, status.track, &track));
				status.deciding = Some(deciding);
			}
		}
		let dirty_alarm = if alarm < <BlockNumberFor<T> as sp_runtime::traits::Bounded>::max_value() {
			Self::ensure_alarm_at(&mut status, index, alarm)
		} else {
			Self::ensure_no_alarm(&mut status);
			true
		};
		(ReferendumInfo::Ongoing(status), dirty_alarm || dirty)
	}
	fn decision_time(deciding: &mut DecidingStatusOf<T>, tally: &T::Tally, track_id: TrackIdOf<T, I>, track: &TrackInfoOf<T, I>) -> BlockNumberFor<T> {
		deciding.confirming.unwrap_or_else(|| {
			let approval = tally.approval(track_id);
			let support = tally.support(track_id);
			let until_approval = track.min_approval.delay(approval);
			let until_support = track.min_support.delay(support);
			let offset = until_support.max(until_approval);
			deciding.since.saturating_add(offset.mul_ceil(track.decision_period))
		})
	}
	fn take_deposit(who: T::AccountId, amount: BalanceOf<T, I>) -> Result<Deposit<T::AccountId, BalanceOf<T, I>>, DispatchError> {
		T::Currency::reserve(&who, amount)?;
		Ok(Deposit { who, amount })
	}
	fn refund_deposit(deposit: Option<Deposit<T::AccountId, BalanceOf<T, I>>>) {
		if let Some(Deposit { who, amount }) = deposit {
			T::Currency::unreserve(&who, amount);
		}
	}
	fn slash_deposit(deposit: Option<Deposit<T::AccountId, BalanceOf<T, I>>>) {
		if let Some(Deposit { who, amount }) = deposit {
			use frame_support::traits::OnUnbalanced;
			T::Slash::on_unbalanced(T::Currency::slash_reserved(&who, amount));
			Self::deposit_event(Event::DepositSlashed { who, amount });
		}
	}
	fn is_passing(tally: &T::Tally, elapsed: BlockNumberFor<T>, period: BlockNumberFor<T>, support_needed: &Curve, approval_needed: &Curve, id: TrackIdOf<T, I>) -> bool {
		let x = Perbill::from_rational(elapsed.min(period), period);
		support_needed.passing(x, tally.support(id)) && approval_needed.passing(x, tally.approval(id))
	}
}
