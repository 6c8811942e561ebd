use crate::dispatch::Parameter;
use codec::{HasCompact, MaxEncodedLen};
use sp_runtime::{traits::Member, DispatchError, Perbill};

pub trait VoteTally<Votes, Class> {
	fn new(_: Class) -> Self;
	fn ayes(&self, class: Class) -> Votes;
	fn support(&self, class: Class) -> Perbill;
	fn approval(&self, class: Class) -> Perbill;
}
pub enum PollStatus<Tally, Moment, Class> {
	None,
	Ongoing(Tally, Class),
	Completed(Moment, bool),
}
impl<Tally, Moment, Class> PollStatus<Tally, Moment, Class> {
	pub fn ensure_ongoing(self) -> Option<(Tally, Class)> {
		match self {
			Self::Ongoing(t, c) => Some((t, c)),
			_ => None,
		}
	}
}
pub struct ClassCountOf<P, T>(core::marker::PhantomData<(P, T)>);
pub trait Polling<Tally> {
	type Index: Parameter + Member + Ord + PartialOrd + Copy + HasCompact + MaxEncodedLen;
	type Votes: Parameter + Member + Ord + PartialOrd + Copy + HasCompact + MaxEncodedLen;
	type Class: Parameter + Member + Ord + PartialOrd + MaxEncodedLen;
	type Moment;
	fn classes() -> Vec<Self::Class>;
	fn as_ongoing(index: Self::Index) -> Option<(Tally, Self::Class)>;
	fn access_poll<R>(index: Self::Index, f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> R) -> R;
	fn try_access_poll<R>(
		index: Self::Index,
		f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError>;
}
pub struct NoOpPoll;
