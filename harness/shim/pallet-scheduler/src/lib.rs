//! Stand-in for pallet-scheduler: named and anonymous tasks, no weight metering beyond the call's own weight.
pub use pallet::*;
use codec::{Decode, Encode};
use frame_support::traits::schedule::{self, v3::TaskName, DispatchTime, Period, Priority};
use frame_support::traits::{Bounded, Get, QueryPreimage};
use frame_system::pallet_prelude::BlockNumberFor;
use sp_runtime::traits::{Dispatchable, One, Saturating};
use sp_runtime::{DispatchError, DispatchResult};

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, scale_info::TypeInfo)]
pub struct Scheduled<Name, Call, BlockNumber, PalletsOrigin> {
	pub maybe_id: Option<Name>,
	pub priority: Priority,
	pub call: Call,
	pub maybe_periodic: Option<Period<BlockNumber>>,
	pub origin: PalletsOrigin,
}
pub type TaskAddress<BlockNumber> = (BlockNumber, u32);
pub type HashingOf<T> = <T as frame_system::Config>::Hashing;
pub type BoundedCallOf<T> = Bounded<<T as Config>::RuntimeCall, HashingOf<T>>;
pub type ScheduledOf<T> = Scheduled<TaskName, BoundedCallOf<T>, BlockNumberFor<T>, <T as Config>::PalletsOrigin>;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::{dispatch::{GetDispatchInfo, RawOrigin}, pallet_prelude::*, traits::{CallerTrait, PrivilegeCmp, StorePreimage}};
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin> + From<Self::PalletsOrigin> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
		type PalletsOrigin: From<RawOrigin<Self::AccountId>> + CallerTrait<Self::AccountId> + MaxEncodedLen;
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin>
			+ GetDispatchInfo
			+ From<frame_system::Call<Self>>;
		type MaximumWeight: Get<Weight>;
		type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type OriginPrivilegeCmp: PrivilegeCmp<Self::PalletsOrigin>;
		type MaxScheduledPerBlock: Get<u32>;
		type WeightInfo;
		type Preimages: QueryPreimage<H = HashingOf<Self>> + StorePreimage;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Scheduled { when: BlockNumberFor<T>, index: u32 },
		Canceled { when: BlockNumberFor<T>, index: u32 },
		Dispatched { task: TaskAddress<BlockNumberFor<T>>, id: Option<TaskName>, result: DispatchResult },
		CallUnavailable { task: TaskAddress<BlockNumberFor<T>>, id: Option<TaskName> },
		PermanentlyOverweight { task: TaskAddress<BlockNumberFor<T>>, id: Option<TaskName> },
	}
	#[pallet::error]
	pub enum Error<T> {
		FailedToSchedule,
		NotFound,
		TargetBlockNumberInPast,
		RescheduleNoChange,
		Named,
	}
	#[pallet::storage]
	pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<Option<ScheduledOf<T>>>, ValueQuery>;
	#[pallet::storage]
	pub type Lookup<T: Config> = StorageMap<_, Twox64Concat, TaskName, TaskAddress<BlockNumberFor<T>>>;
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(now: BlockNumberFor<T>) -> Weight {
			Self::service(now);
			Weight::zero()
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn schedule(origin: OriginFor<T>, when: BlockNumberFor<T>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: Priority, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from_ref(&origin).caller().clone();
			<Self as schedule::v3::Anon<_, <T as Config>::RuntimeCall, _>>::schedule(DispatchTime::At(when), maybe_periodic, priority, origin, T::Preimages::bound(*call)?)?;
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn cancel(origin: OriginFor<T>, when: BlockNumberFor<T>, index: u32) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from_ref(&origin).caller().clone();
			Self::do_cancel(Some(origin), (when, index))
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn schedule_named(origin: OriginFor<T>, id: TaskName, when: BlockNumberFor<T>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: Priority, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from_ref(&origin).caller().clone();
			<Self as schedule::v3::Named<_, <T as Config>::RuntimeCall, _>>::schedule_named(id, DispatchTime::At(when), maybe_periodic, priority, origin, T::Preimages::bound(*call)?)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn cancel_named(origin: OriginFor<T>, id: TaskName) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from_ref(&origin).caller().clone();
			Self::do_cancel_named(Some(origin), id)
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn schedule_after(origin: OriginFor<T>, after: BlockNumberFor<T>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: Priority, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from_ref(&origin).caller().clone();
			<Self as schedule::v3::Anon<_, <T as Config>::RuntimeCall, _>>::schedule(DispatchTime::After(after), maybe_periodic, priority, origin, T::Preimages::bound(*call)?)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn schedule_named_after(origin: OriginFor<T>, id: TaskName, after: BlockNumberFor<T>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: Priority, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from_ref(&origin).caller().clone();
			<Self as schedule::v3::Named<_, <T as Config>::RuntimeCall, _>>::schedule_named(id, DispatchTime::After(after), maybe_periodic, priority, origin, T::Preimages::bound(*call)?)?;
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn set_retry(origin: OriginFor<T>, task: TaskAddress<BlockNumberFor<T>>, retries: u8, period: BlockNumberFor<T>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin)?;
			let _ = (task, retries, period,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn set_retry_named(origin: OriginFor<T>, id: TaskName, retries: u8, period: BlockNumberFor<T>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin)?;
			let _ = (id, retries, period,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn cancel_retry(origin: OriginFor<T>, task: TaskAddress<BlockNumberFor<T>>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin)?;
			let _ = (task,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(9)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn cancel_retry_named(origin: OriginFor<T>, id: TaskName) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin)?;
			let _ = (id,);
			Err(DispatchError::Other("not modelled"))
		}
	}
}
impl<T: Config> Pallet<T> {
	fn service(now: BlockNumberFor<T>) {
		use frame_support::dispatch::GetDispatchInfo;
		let agenda = Agenda::<T>::take(now);
		let mut order: Vec<usize> = (0..agenda.len()).filter(|i| agenda[*i].is_some()).collect();
		order.sort_by_key(|i| agenda[*i].as_ref().map_or(255, |s| s.priority));
		for i in order {
			let Some(s) = agenda[i].clone() else { continue };
			if let Some(id) = s.maybe_id {
				Lookup::<T>::remove(id);
			}
			let task = (now, i as u32);
			match T::Preimages::peek(&s.call) {
				Err(_) => Self::deposit_event(Event::CallUnavailable { task, id: s.maybe_id }),
				Ok((call, _)) => {
					let w = call.get_dispatch_info().weight;
					if w.any_gt(T::MaximumWeight::get()) {
						Self::deposit_event(Event::PermanentlyOverweight { task, id: s.maybe_id });
						continue;
					}
					T::Preimages::drop(&s.call);
					let o: <T as Config>::RuntimeOrigin = s.origin.into();
					let result = call.dispatch(o).map(|_| ()).map_err(|e| e.error);
					Self::deposit_event(Event::Dispatched { task, id: s.maybe_id, result });
				}
			}
		}
	}
	fn resolve_time(when: DispatchTime<BlockNumberFor<T>>) -> Result<BlockNumberFor<T>, DispatchError> {
		let now = frame_system::Pallet::<T>::block_number();
		let when = match when {
			DispatchTime::At(x) => x,
			DispatchTime::After(x) => now.saturating_add(x).saturating_add(One::one()),
		};
		if when <= now {
			return Err(Error::<T>::TargetBlockNumberInPast.into());
		}
		Ok(when)
	}
	fn place(when: BlockNumberFor<T>, what: ScheduledOf<T>) -> Result<TaskAddress<BlockNumberFor<T>>, DispatchError> {
		let mut agenda = Agenda::<T>::get(when);
		let name = what.maybe_id;
		let index = if (agenda.len() as u32) < T::MaxScheduledPerBlock::get() {
			agenda.push(Some(what));
			agenda.len() as u32 - 1
		} else if let Some(hole) = agenda.iter().position(|i| i.is_none()) {
			agenda[hole] = Some(what);
			hole as u32
		} else {
			return Err(DispatchError::Exhausted);
		};
		Agenda::<T>::insert(when, agenda);
		if let Some(id) = name {
			Lookup::<T>::insert(id, (when, index));
		}
		Self::deposit_event(Event::Scheduled { when, index });
		Ok((when, index))
	}
	fn remove((when, index): TaskAddress<BlockNumberFor<T>>) -> Option<ScheduledOf<T>> {
		let mut agenda = Agenda::<T>::get(when);
		let s = agenda.get_mut(index as usize).and_then(|s| s.take());
		while let Some(None) = agenda.last() {
			agenda.pop();
		}
		if agenda.is_empty() {
			Agenda::<T>::remove(when);
		} else {
			Agenda::<T>::insert(when, agenda);
		}
		s
	}
	/// May this origin undo what that one scheduled?
	fn may_cancel(origin: Option<T::PalletsOrigin>, at: TaskAddress<BlockNumberFor<T>>) -> DispatchResult {
		use frame_support::traits::PrivilegeCmp;
		let (Some(o), Some(Some(s))) = (origin, Agenda::<T>::get(at.0).get(at.1 as usize).cloned()) else { return Ok(()) };
		match T::OriginPrivilegeCmp::cmp_privilege(&o, &s.origin) {
			Some(core::cmp::Ordering::Less) | None => Err(DispatchError::BadOrigin),
			_ => Ok(()),
		}
	}
	pub fn do_cancel(origin: Option<T::PalletsOrigin>, (when, index): TaskAddress<BlockNumberFor<T>>) -> DispatchResult {
		Self::may_cancel(origin, (when, index))?;
		let s = Self::remove((when, index)).ok_or(Error::<T>::NotFound)?;
		T::Preimages::drop(&s.call);
		if let Some(id) = s.maybe_id {
			Lookup::<T>::remove(id);
		}
		Self::deposit_event(Event::Canceled { when, index });
		Ok(())
	}
	pub fn do_cancel_named(origin: Option<T::PalletsOrigin>, id: TaskName) -> DispatchResult {
		let Some((when, index)) = Lookup::<T>::get(id) else { return Err(Error::<T>::NotFound.into()) };
		Self::may_cancel(origin, (when, index))?;
		Lookup::<T>::remove(id);
		if let Some(s) = Self::remove((when, index)) {
			T::Preimages::drop(&s.call);
		}
		Self::deposit_event(Event::Canceled { when, index });
		Ok(())
	}
}
impl<T: Config> schedule::v3::Named<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
	type Address = TaskAddress<BlockNumberFor<T>>;
	type Hasher = T::Hashing;
	fn schedule_named(
		id: TaskName,
		when: DispatchTime<BlockNumberFor<T>>,
		maybe_periodic: Option<Period<BlockNumberFor<T>>>,
		priority: Priority,
		origin: T::PalletsOrigin,
		call: BoundedCallOf<T>,
	) -> Result<Self::Address, DispatchError> {
		if Lookup::<T>::contains_key(id) {
			return Err(Error::<T>::FailedToSchedule.into());
		}
		let when = Self::resolve_time(when)?;
		if call.lookup_needed() {
			T::Preimages::request(&call.hash());
		}
		Self::place(when, Scheduled { maybe_id: Some(id), priority, call, maybe_periodic, origin })
	}
	fn cancel_named(id: TaskName) -> Result<(), DispatchError> {
		Self::do_cancel_named(None, id)
	}
	fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> {
		let new = Self::resolve_time(when)?;
		let at = Lookup::<T>::get(id).ok_or(Error::<T>::NotFound)?;
		if at.0 == new {
			return Err(Error::<T>::RescheduleNoChange.into());
		}
		let s = Self::remove(at).ok_or(Error::<T>::NotFound)?;
		Self::place(new, s)
	}
	fn next_dispatch_time(id: TaskName) -> Result<BlockNumberFor<T>, DispatchError> {
		Lookup::<T>::get(id).map(|(w, _)| w).ok_or(DispatchError::Unavailable)
	}
}
impl<T: Config> schedule::v3::Anon<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
	type Address = TaskAddress<BlockNumberFor<T>>;
	type Hasher = T::Hashing;
	fn schedule(
		when: DispatchTime<BlockNumberFor<T>>,
		maybe_periodic: Option<Period<BlockNumberFor<T>>>,
		priority: Priority,
		origin: T::PalletsOrigin,
		call: BoundedCallOf<T>,
	) -> Result<Self::Address, DispatchError> {
		let when = Self::resolve_time(when)?;
		Self::place(when, Scheduled { maybe_id: None, priority, call, maybe_periodic, origin })
	}
	fn cancel(address: Self::Address) -> Result<(), DispatchError> {
		Self::remove(address).map(|_| ()).ok_or(Error::<T>::NotFound.into())
	}
}
