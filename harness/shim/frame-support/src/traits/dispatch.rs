use crate::dispatch::{DispatchResultWithPostInfo, Parameter, RawOrigin};
use codec::MaxEncodedLen;
use sp_runtime::traits::{BadOrigin, Member, Morph, TryMorph, Get};
use sp_runtime::Either;
use std::cmp::Ordering;
use std::marker::PhantomData;

pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
impl<T: UnfilteredDispatchable> UnfilteredDispatchable for Box<T> {
	type RuntimeOrigin = T::RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo {
		(*self).dispatch_bypass_filter(origin)
	}
}
pub type CallableCallFor<A, R> = <A as crate::dispatch::Callable<R>>::RuntimeCall;
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
	fn get_call_metadata(&self) -> CallMetadata;
}

pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn ensure_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, BadOrigin>
	where
		OuterOrigin: OriginTrait,
	{
		if o.caller().is_root() {
			return Ok(None);
		}
		Self::ensure_origin(o).map(Some)
	}
	fn try_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, OuterOrigin>
	where
		OuterOrigin: OriginTrait,
	{
		if o.caller().is_root() {
			return Ok(None);
		}
		Self::try_origin(o).map(Some)
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}

pub struct AsEnsureOriginWithArg<EO>(PhantomData<EO>);
impl<OuterOrigin, Argument, EO: EnsureOrigin<OuterOrigin>> EnsureOriginWithArg<OuterOrigin, Argument> for AsEnsureOriginWithArg<EO> {
	type Success = EO::Success;
	fn try_origin(o: OuterOrigin, _: &Argument) -> Result<Self::Success, OuterOrigin> {
		EO::try_origin(o)
	}
}
pub struct NeverEnsureOrigin<Success>(PhantomData<Success>);
impl<OO, Success> EnsureOrigin<OO> for NeverEnsureOrigin<Success> {
	type Success = Success;
	fn try_origin(o: OO) -> Result<Success, OO> {
		Err(o)
	}
}
pub struct EnsureOriginEqualOrHigherPrivilege<Origin, P>(PhantomData<(Origin, P)>);
impl<OuterOrigin, Origin, P> EnsureOrigin<OuterOrigin> for EnsureOriginEqualOrHigherPrivilege<Origin, P>
where
	Origin: Get<OuterOrigin>,
	P: PrivilegeCmp<OuterOrigin>,
	OuterOrigin: Eq,
{
	type Success = ();
	fn try_origin(o: OuterOrigin) -> Result<(), OuterOrigin> {
		match P::cmp_privilege(&o, &Origin::get()) {
			Some(Ordering::Less) | None => Err(o),
			_ => Ok(()),
		}
	}
}
pub struct MapSuccess<Orig, Mutator>(PhantomData<(Orig, Mutator)>);
impl<O, Orig: EnsureOrigin<O>, Mutator: Morph<Orig::Success>> EnsureOrigin<O> for MapSuccess<Orig, Mutator> {
	type Success = Mutator::Outcome;
	fn try_origin(o: O) -> Result<Mutator::Outcome, O> {
		Ok(Mutator::morph(Orig::try_origin(o)?))
	}
}
pub struct TryMapSuccess<Orig, Mutator>(PhantomData<(Orig, Mutator)>);
impl<O: Clone, Orig: EnsureOrigin<O>, Mutator: TryMorph<Orig::Success>> EnsureOrigin<O> for TryMapSuccess<Orig, Mutator> {
	type Success = Mutator::Outcome;
	fn try_origin(o: O) -> Result<Mutator::Outcome, O> {
		let orig = o.clone();
		Mutator::try_morph(Orig::try_origin(o)?).map_err(|()| orig)
	}
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<OO, L: EnsureOrigin<OO>, R: EnsureOrigin<OO>> EnsureOrigin<OO> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: OO) -> Result<Self::Success, OO> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |o| Ok(Either::Left(o)))
	}
}
impl<OO, A, L: EnsureOriginWithArg<OO, A>, R: EnsureOriginWithArg<OO, A>> EnsureOriginWithArg<OO, A> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: OO, a: &A) -> Result<Self::Success, OO> {
		L::try_origin(o, a).map_or_else(|o| R::try_origin(o, a).map(Either::Right), |o| Ok(Either::Left(o)))
	}
}
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<OO, L: EnsureOrigin<OO>, R: EnsureOrigin<OO, Success = L::Success>> EnsureOrigin<OO> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: OO) -> Result<Self::Success, OO> {
		L::try_origin(o).or_else(|o| R::try_origin(o))
	}
}
impl<OO, A, L: EnsureOriginWithArg<OO, A>, R: EnsureOriginWithArg<OO, A, Success = L::Success>> EnsureOriginWithArg<OO, A> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: OO, a: &A) -> Result<Self::Success, OO> {
		L::try_origin(o, a).or_else(|o| R::try_origin(o, a))
	}
}

pub trait CallerTrait<AccountId>: Parameter + Member + From<RawOrigin<AccountId>> {
	fn into_system(self) -> Option<RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		self.as_system_ref().and_then(RawOrigin::as_signed)
	}
	fn is_root(&self) -> bool {
		self.as_system_ref().map_or(false, RawOrigin::is_root)
	}
	fn is_none(&self) -> bool {
		self.as_system_ref().map_or(false, RawOrigin::is_none)
	}
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller(&mut self, caller: Self::PalletsOrigin);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>> {
		self.caller().as_system_ref()
	}
	fn as_signed(self) -> Option<Self::AccountId> {
		self.into_caller().into_system().and_then(|s| if let RawOrigin::Signed(who) = s { Some(who) } else { None })
	}
	fn into_signer(self) -> Option<Self::AccountId> {
		self.as_signed()
	}
}

pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<Origin: PartialEq> PrivilegeCmp<Origin> for EqualPrivilegeOnly {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<Ordering> {
		(left == right).then(|| Ordering::Equal)
	}
}
