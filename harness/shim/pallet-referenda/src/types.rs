use super::*;
use codec::{Codec, Compact};
use frame_support::traits::{Bounded, CallerTrait, OriginTrait};
use sp_runtime::{FixedI64, FixedPointNumber, PerThing, Perbill, RuntimeDebug};
pub use std::borrow::Cow;

pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub type CallOf<T, I> = <T as Config<I>>::RuntimeCall;
pub type BoundedCallOf<T, I> = Bounded<<T as Config<I>>::RuntimeCall, <T as frame_system::Config>::Hashing>;
pub type VotesOf<T, I> = <T as Config<I>>::Votes;
pub type TallyOf<T, I> = <T as Config<I>>::Tally;
pub type PalletsOriginOf<T> = <<T as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin;
pub type TrackIdOf<T, I> = <<T as Config<I>>::Tracks as TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>>>::Id;
pub type TrackInfoOf<T, I = ()> = TrackInfo<BalanceOf<T, I>, BlockNumberFor<T>>;
pub type ScheduleAddressOf<T, I> =
	<<T as Config<I>>::Scheduler as ScheduleAnon<BlockNumberFor<T>, CallOf<T, I>, PalletsOriginOf<T>>>::Address;
pub type ReferendumIndex = u32;
pub type ReferendumStatusOf<T, I> = ReferendumStatus<
	TrackIdOf<T, I>,
	PalletsOriginOf<T>,
	BlockNumberFor<T>,
	BoundedCallOf<T, I>,
	BalanceOf<T, I>,
	TallyOf<T, I>,
	<T as frame_system::Config>::AccountId,
	ScheduleAddressOf<T, I>,
>;
pub type ReferendumInfoOf<T, I> = ReferendumInfo<
	TrackIdOf<T, I>,
	PalletsOriginOf<T>,
	BlockNumberFor<T>,
	BoundedCallOf<T, I>,
	BalanceOf<T, I>,
	TallyOf<T, I>,
	<T as frame_system::Config>::AccountId,
	ScheduleAddressOf<T, I>,
>;
pub type DecidingStatusOf<T> = DecidingStatus<BlockNumberFor<T>>;

#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub struct DecidingStatus<BlockNumber> {
	pub since: BlockNumber,
	pub confirming: Option<BlockNumber>,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub struct Deposit<AccountId, Balance> {
	pub who: AccountId,
	pub amount: Balance,
}
pub const DEFAULT_MAX_TRACK_NAME_LEN: usize = 25;
#[derive(Clone, Encode, Decode, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub struct TrackInfo<Balance, Moment, const N: usize = DEFAULT_MAX_TRACK_NAME_LEN> {
	pub name: [u8; N],
	pub max_deciding: u32,
	pub decision_deposit: Balance,
	pub prepare_period: Moment,
	pub decision_period: Moment,
	pub confirm_period: Moment,
	pub min_enactment_period: Moment,
	pub min_approval: Curve,
	pub min_support: Curve,
}
#[derive(Clone, Encode, Decode, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub struct Track<Id, Balance, Moment, const N: usize = DEFAULT_MAX_TRACK_NAME_LEN> {
	pub id: Id,
	pub info: TrackInfo<Balance, Moment, N>,
}
pub trait TracksInfo<Balance, Moment>
where
	Balance: Clone + core::fmt::Debug + Eq + 'static,
	Moment: Clone + core::fmt::Debug + Eq + 'static,
{
	type Id: Copy + frame_support::dispatch::Parameter + Ord + PartialOrd + Send + Sync + 'static + MaxEncodedLen;
	type RuntimeOrigin;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, Balance, Moment>>>;
	fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()>;
	fn info(id: Self::Id) -> Option<Cow<'static, TrackInfo<Balance, Moment>>> {
		Self::tracks().find(|t| t.id == id).map(|t| match t {
			Cow::Borrowed(t) => Cow::Borrowed(&t.info),
			Cow::Owned(t) => Cow::Owned(t.info),
		})
	}
}
#[macro_export]
macro_rules! impl_tracksinfo_get {
	($tracksinfo:ty, $balance:ty, $blocknumber:ty) => {
		impl
			$crate::__private::Get<
				$crate::__private::Vec<(
					<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::Id,
					$crate::TrackInfo<$balance, $blocknumber>,
				)>,
			> for $tracksinfo
		{
			fn get() -> $crate::__private::Vec<(
				<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::Id,
				$crate::TrackInfo<$balance, $blocknumber>,
			)> {
				<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::tracks().map(|t| (t.id, t.info.clone())).collect()
			}
		}
	};
}

#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub struct ReferendumStatus<TrackId, RuntimeOrigin, Moment, Call, Balance, Tally, AccountId, ScheduleAddress> {
	pub track: TrackId,
	pub origin: RuntimeOrigin,
	pub proposal: Call,
	pub enactment: DispatchTime<Moment>,
	pub submitted: Moment,
	pub submission_deposit: Deposit<AccountId, Balance>,
	pub decision_deposit: Option<Deposit<AccountId, Balance>>,
	pub deciding: Option<DecidingStatus<Moment>>,
	pub tally: Tally,
	pub in_queue: bool,
	pub alarm: Option<(Moment, ScheduleAddress)>,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub enum ReferendumInfo<TrackId, RuntimeOrigin, Moment, Call, Balance, Tally, AccountId, ScheduleAddress> {
	Ongoing(ReferendumStatus<TrackId, RuntimeOrigin, Moment, Call, Balance, Tally, AccountId, ScheduleAddress>),
	Approved(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	Rejected(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	Cancelled(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	TimedOut(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	Killed(Moment),
}
impl<A, B, M, C, Bal: Clone, T, Acc: Clone, S> ReferendumInfo<A, B, M, C, Bal, T, Acc, S> {
	pub fn take_decision_deposit(&mut self) -> Result<Option<Deposit<Acc, Bal>>, ()> {
		use ReferendumInfo::*;
		match self {
			Ongoing(x) if x.decision_deposit.is_none() => Ok(None),
			Ongoing(_) => Err(()),
			Approved(_, _, d) | Rejected(_, _, d) | TimedOut(_, _, d) | Cancelled(_, _, d) => Ok(d.take()),
			Killed(_) => Ok(None),
		}
	}
	pub fn take_submission_deposit(&mut self) -> Result<Option<Deposit<Acc, Bal>>, ()> {
		use ReferendumInfo::*;
		match self {
			Approved(_, d, _) | Cancelled(_, d, _) => Ok(d.take()),
			_ => Err(()),
		}
	}
}

#[derive(Clone, Eq, PartialEq, Encode, Decode, TypeInfo, MaxEncodedLen, Debug)]
pub enum Curve {
	LinearDecreasing { length: Perbill, floor: Perbill, ceil: Perbill },
	SteppedDecreasing { begin: Perbill, end: Perbill, step: Perbill, period: Perbill },
	Reciprocal { factor: FixedI64, x_offset: FixedI64, y_offset: FixedI64 },
}
const fn fixed_to_perbill(x: FixedI64) -> Perbill {
	let i = x.into_inner();
	Perbill::from_parts(if i < 0 {
		0
	} else if i > 1_000_000_000 {
		1_000_000_000
	} else {
		i as u32
	})
}
impl Curve {
	pub const fn make_linear(length: u128, period: u128, floor: FixedI64, ceil: FixedI64) -> Curve {
		let length = fixed_to_perbill(FixedI64::from_rational(length, period));
		Curve::LinearDecreasing { length, floor: fixed_to_perbill(floor), ceil: fixed_to_perbill(ceil) }
	}
	pub fn threshold(&self, x: Perbill) -> Perbill {
		match self {
			Self::LinearDecreasing { length, floor, ceil } => *ceil - (Perbill::from_rational(x.min(*length).deconstruct(), length.deconstruct()) * (*ceil - *floor)),
			Self::SteppedDecreasing { begin, end, step, period } =>
				(*begin - (Perbill::from_parts((step.deconstruct() as u64 * x.int_div(*period) as u64).min(1_000_000_000) as u32)).min(*begin)).max(*end),
			Self::Reciprocal { factor, x_offset, y_offset } => {
				let x = FixedI64::from_inner(x.deconstruct() as i64) + *x_offset;
				if x.into_inner() <= 0 {
					return Perbill::one();
				}
				let y = FixedI64::from_inner(((factor.into_inner() as i128) * 1_000_000_000 / (x.into_inner() as i128)) as i64) + *y_offset;
				fixed_to_perbill(y)
			}
		}
	}
	/// The smallest x from which y passes (found by bisection, as the thresholds never grow).
	pub fn delay(&self, y: Perbill) -> Perbill {
		if self.passing(Perbill::zero(), y) {
			return Perbill::zero();
		}
		if !self.passing(Perbill::one(), y) {
			return Perbill::one();
		}
		let (mut lo, mut hi) = (0u32, 1_000_000_000u32);
		while hi - lo > 1 {
			let mid = lo + (hi - lo) / 2;
			if self.passing(Perbill::from_parts(mid), y) {
				hi = mid
			} else {
				lo = mid
			}
		}
		Perbill::from_parts(hi)
	}
	pub fn passing(&self, x: Perbill, y: Perbill) -> bool {
		y >= self.threshold(x)
	}
}
