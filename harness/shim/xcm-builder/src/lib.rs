//! Stand-in for staging-xcm-builder: the pieces a chain's cross-chain configuration is put together from.
use frame_support::traits::{
	fungible, fungibles,
	tokens::{
		imbalance::OnUnbalanced, Fortitude::Polite, Precision::Exact, Preservation::{Expendable, Preserve},
	},
	CallerTrait, Contains, ContainsPair, EnsureOrigin, Get, OriginTrait, ProcessMessage, ProcessMessageError,
};
use sp_runtime::{
	traits::{AccountIdConversion, MaybeEquivalence, TryConvert},
	SaturatedConversion,
};
use std::marker::PhantomData;
use xcm::latest::prelude::*;
use xcm_executor::{
	traits::{
		ConvertLocation, ConvertOrigin, Error as MatchError, MatchesFungible, MatchesFungibles, ProcessTransaction, Properties,
		ShouldExecute, TransactAsset, WeightBounds, WeightTrader,
	},
	AssetsInHolding,
};

// ---- places as accounts ----
pub struct ParentIsPreset<AccountId>(PhantomData<AccountId>);
impl<AccountId: codec::Decode + Eq + Clone> ConvertLocation<AccountId> for ParentIsPreset<AccountId> {
	fn convert_location(location: &Location) -> Option<AccountId> {
		if location.contains_parents_only(1) {
			b"Parent".using_encoded_with_zeros()
		} else {
			None
		}
	}
}
trait WithZeros {
	fn using_encoded_with_zeros<A: codec::Decode>(&self) -> Option<A>;
}
impl WithZeros for [u8; 6] {
	fn using_encoded_with_zeros<A: codec::Decode>(&self) -> Option<A> {
		A::decode(&mut sp_runtime::traits::TrailingZeroInput::new(self)).ok()
	}
}
pub struct SiblingParachainConvertsVia<ParaId, AccountId>(PhantomData<(ParaId, AccountId)>);
impl<ParaId: From<u32> + Into<u32> + AccountIdConversion<AccountId>, AccountId> ConvertLocation<AccountId>
	for SiblingParachainConvertsVia<ParaId, AccountId>
{
	fn convert_location(location: &Location) -> Option<AccountId> {
		match location.unpack() {
			(1, [Parachain(id)]) => Some(ParaId::from(*id).into_account_truncating()),
			_ => None,
		}
	}
}
pub struct AccountId32Aliases<Network, AccountId>(PhantomData<(Network, AccountId)>);
impl<Network: Get<Option<NetworkId>>, AccountId: From<[u8; 32]>> ConvertLocation<AccountId> for AccountId32Aliases<Network, AccountId> {
	fn convert_location(location: &Location) -> Option<AccountId> {
		match location.unpack() {
			(0, [AccountId32 { id, network: None }]) => Some((*id).into()),
			(0, [AccountId32 { id, network }]) if *network == Network::get() => Some((*id).into()),
			_ => None,
		}
	}
}

// ---- places as origins ----
pub struct SovereignSignedViaLocation<L, O>(PhantomData<(L, O)>);
impl<L: ConvertLocation<O::AccountId>, O: OriginTrait> ConvertOrigin<O> for SovereignSignedViaLocation<L, O>
where
	O::AccountId: Clone,
{
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		if let OriginKind::SovereignAccount = kind {
			let who = L::convert_location(&origin).ok_or(origin)?;
			Ok(O::signed(who))
		} else {
			Err(origin)
		}
	}
}
pub struct RelayChainAsNative<R, O>(PhantomData<(R, O)>);
impl<R: Get<O>, O> ConvertOrigin<O> for RelayChainAsNative<R, O> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		if kind == OriginKind::Native && origin.contains_parents_only(1) {
			Ok(R::get())
		} else {
			Err(origin)
		}
	}
}
pub struct SiblingParachainAsNative<P, O>(PhantomData<(P, O)>);
impl<P: From<u32>, O: From<P>> ConvertOrigin<O> for SiblingParachainAsNative<P, O> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		match (kind, origin.unpack()) {
			(OriginKind::Native, (1, [Parachain(id)])) => Ok(O::from(P::from(*id))),
			_ => Err(origin),
		}
	}
}
pub struct SignedAccountId32AsNative<N, O>(PhantomData<(N, O)>);
impl<N: Get<Option<NetworkId>>, O: OriginTrait> ConvertOrigin<O> for SignedAccountId32AsNative<N, O>
where
	O::AccountId: From<[u8; 32]>,
{
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		match (kind, origin.unpack()) {
			(OriginKind::Native, (0, [AccountId32 { id, network }])) if matches!(network, None) || *network == N::get() =>
				Ok(O::signed((*id).into())),
			_ => Err(origin),
		}
	}
}

// ---- origins as places ----
pub struct SignedToAccountId32<O, AccountId, N>(PhantomData<(O, AccountId, N)>);
impl<O: OriginTrait + Clone, AccountId: Into<[u8; 32]>, N: Get<Option<NetworkId>>> TryConvert<O, Location>
	for SignedToAccountId32<O, AccountId, N>
where
	O::AccountId: Into<AccountId>,
{
	fn try_convert(o: O) -> Result<Location, O> {
		match o.clone().into_signer() {
			Some(who) => Ok(Junction::AccountId32 { network: N::get(), id: Into::<AccountId>::into(who).into() }.into()),
			None => Err(o),
		}
	}
}
pub struct EnsureXcmOrigin<O, C>(PhantomData<(O, C)>);
impl<O: OriginTrait + Clone, C: TryConvert<O, Location>> EnsureOrigin<O> for EnsureXcmOrigin<O, C> {
	type Success = Location;
	fn try_origin(o: O) -> Result<Location, O> {
		let o = match C::try_convert(o) {
			Ok(location) => return Ok(location),
			Err(o) => o,
		};
		if o.caller().is_root() {
			Ok(Location::here())
		} else {
			Err(o)
		}
	}
}

// ---- barriers ----
pub struct TakeWeightCredit;
impl ShouldExecute for TakeWeightCredit {
	fn should_execute<C>(_: &Location, _: &mut [Instruction<C>], max: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
		p.weight_credit = p.weight_credit.checked_sub(&max).ok_or(ProcessMessageError::Overweight(max))?;
		Ok(())
	}
}
pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowTopLevelPaidExecutionFrom<T> {
	fn should_execute<C>(o: &Location, ins: &mut [Instruction<C>], max: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		if !T::contains(o) {
			return Err(ProcessMessageError::Unsupported);
		}
		let end = ins.len().min(5);
		let mut rest = ins[..end].iter_mut();
		match rest.next() {
			Some(WithdrawAsset(..) | ReceiveTeleportedAsset(..) | ReserveAssetDeposited(..) | ClaimAsset { .. }) => (),
			_ => return Err(ProcessMessageError::BadFormat),
		}
		for i in rest {
			match i {
				ClearOrigin | AliasOrigin(..) => (),
				DescendOrigin(c) if !c.is_empty() => (),
				BuyExecution { weight_limit: Limited(ref mut w), .. } if w.all_gte(max) => {
					*w = max;
					return Ok(());
				}
				BuyExecution { ref mut weight_limit, .. } if *weight_limit == Unlimited => {
					*weight_limit = Limited(max);
					return Ok(());
				}
				_ => return Err(ProcessMessageError::Overweight(max)),
			}
		}
		Err(ProcessMessageError::BadFormat)
	}
}
pub struct AllowExplicitUnpaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowExplicitUnpaidExecutionFrom<T> {
	fn should_execute<C>(o: &Location, ins: &mut [Instruction<C>], max: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		if !T::contains(o) {
			return Err(ProcessMessageError::Unsupported);
		}
		match ins.first() {
			Some(UnpaidExecution { weight_limit: Limited(m), .. }) if m.all_gte(max) => Ok(()),
			Some(UnpaidExecution { weight_limit: Unlimited, .. }) => Ok(()),
			_ => Err(ProcessMessageError::Overweight(max)),
		}
	}
}
pub struct WithComputedOrigin<Inner, LocalUniversal, MaxPrefixes>(PhantomData<(Inner, LocalUniversal, MaxPrefixes)>);
impl<Inner: ShouldExecute, U: Get<InteriorLocation>, M: Get<u32>> ShouldExecute for WithComputedOrigin<Inner, U, M> {
	fn should_execute<C>(o: &Location, ins: &mut [Instruction<C>], max: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
		let mut actual = o.clone();
		let mut skipped = 0;
		while skipped < M::get() as usize {
			match ins.get(skipped) {
				Some(UniversalOrigin(j)) => actual = Location { parents: U::get().len() as u8, interior: [*j].into() },
				Some(DescendOrigin(j)) => actual.append_with(j.clone()).map_err(|_| ProcessMessageError::Unsupported)?,
				_ => break,
			}
			skipped += 1;
		}
		Inner::should_execute(&actual, &mut ins[skipped..], max, p)
	}
}

// ---- assets ----
pub struct IsConcrete<T>(PhantomData<T>);
impl<T: Get<Location>, B: TryFrom<u128>> MatchesFungible<B> for IsConcrete<T> {
	fn matches_fungible(a: &Asset) -> Option<B> {
		match (&a.id, &a.fun) {
			(id, Fungible(n)) if id.0 == T::get() => B::try_from(*n).ok(),
			_ => None,
		}
	}
}
pub struct NativeAsset;
impl ContainsPair<Asset, Location> for NativeAsset {
	fn contains(asset: &Asset, origin: &Location) -> bool {
		asset.id.0 == *origin
	}
}
pub struct StartsWith<T>(PhantomData<T>);
impl<T: Get<Location>> Contains<Location> for StartsWith<T> {
	fn contains(t: &Location) -> bool {
		t.starts_with(&T::get())
	}
}
pub struct ConvertedConcreteId<AssetId, Balance, ConvertAssetId, ConvertBalance>(PhantomData<(AssetId, Balance, ConvertAssetId, ConvertBalance)>);
impl<AssetId, Balance, CA: MaybeEquivalence<Location, AssetId>, CB: MaybeEquivalence<u128, Balance>> MatchesFungibles<AssetId, Balance>
	for ConvertedConcreteId<AssetId, Balance, CA, CB>
{
	fn matches_fungibles(a: &Asset) -> Result<(AssetId, Balance), MatchError> {
		let Fungible(n) = a.fun else { return Err(MatchError::AssetNotHandled) };
		let what = CA::convert(&a.id.0).ok_or(MatchError::AssetIdConversionFailed)?;
		let amount = CB::convert(&n).ok_or(MatchError::AmountToBalanceConversionFailed)?;
		Ok((what, amount))
	}
}
pub struct MatchedConvertedConcreteId<AssetId, Balance, MatchAssetId, ConvertAssetId, ConvertBalance>(
	PhantomData<(AssetId, Balance, MatchAssetId, ConvertAssetId, ConvertBalance)>,
);
impl<AssetId, Balance, M: Contains<Location>, CA: MaybeEquivalence<Location, AssetId>, CB: MaybeEquivalence<u128, Balance>>
	MatchesFungibles<AssetId, Balance> for MatchedConvertedConcreteId<AssetId, Balance, M, CA, CB>
{
	fn matches_fungibles(a: &Asset) -> Result<(AssetId, Balance), MatchError> {
		let Fungible(n) = a.fun else { return Err(MatchError::AssetNotHandled) };
		if !M::contains(&a.id.0) {
			return Err(MatchError::AssetNotHandled);
		}
		let what = CA::convert(&a.id.0).ok_or(MatchError::AssetIdConversionFailed)?;
		let amount = CB::convert(&n).ok_or(MatchError::AmountToBalanceConversionFailed)?;
		Ok((what, amount))
	}
}
pub enum MintLocation {
	Local,
	NonLocal,
}
pub struct LocalMint<T>(PhantomData<T>);
pub struct FungibleAdapter<F, Matcher, L, AccountId, Check>(PhantomData<(F, Matcher, L, AccountId, Check)>);
impl<F: fungible::Mutate<AccountId>, M: MatchesFungible<F::Balance>, L: ConvertLocation<AccountId>, AccountId: Eq + Clone, Check> TransactAsset
	for FungibleAdapter<F, M, L, AccountId, Check>
{
	fn deposit_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> XcmResult {
		let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::mint_into(&who, amount).map_err(|e| XcmError::FailedToTransactAsset(e.into()))?;
		Ok(())
	}
	fn withdraw_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
		let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::burn_from(&who, amount, Expendable, Exact, Polite).map_err(|e| XcmError::FailedToTransactAsset(e.into()))?;
		Ok(what.clone().into())
	}
	fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
		let source = L::convert_location(from).ok_or(MatchError::AccountIdConversionFailed)?;
		let dest = L::convert_location(to).ok_or(MatchError::AccountIdConversionFailed)?;
		F::transfer(&source, &dest, amount, Expendable).map_err(|e| XcmError::FailedToTransactAsset(e.into()))?;
		Ok(what.clone().into())
	}
}
pub struct FungiblesAdapter<F, Matcher, L, AccountId, Check, Account>(PhantomData<(F, Matcher, L, AccountId, Check, Account)>);
impl<F: fungibles::Mutate<AccountId>, M: MatchesFungibles<F::AssetId, F::Balance>, L: ConvertLocation<AccountId>, AccountId: Eq + Clone, Check, A>
	TransactAsset for FungiblesAdapter<F, M, L, AccountId, Check, A>
{
	fn deposit_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> XcmResult {
		let (id, amount) = M::matches_fungibles(what)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::mint_into(id, &who, amount).map_err(|e| XcmError::FailedToTransactAsset(e.into()))?;
		Ok(())
	}
	fn withdraw_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
		let (id, amount) = M::matches_fungibles(what)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::burn_from(id, &who, amount, Expendable, Exact, Polite).map_err(|e| XcmError::FailedToTransactAsset(e.into()))?;
		Ok(what.clone().into())
	}
	fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		let (id, amount) = M::matches_fungibles(what)?;
		let source = L::convert_location(from).ok_or(MatchError::AccountIdConversionFailed)?;
		let dest = L::convert_location(to).ok_or(MatchError::AccountIdConversionFailed)?;
		F::transfer(id, &source, &dest, amount, Preserve).map_err(|e| XcmError::FailedToTransactAsset(e.into()))?;
		Ok(what.clone().into())
	}
}

// ---- weights and fees ----
pub struct WeightInfoBounds<W, C, M>(PhantomData<(W, C, M)>);
impl<W: XcmWeightInfo<C>, C: codec::Decode, M: Get<u32>> WeightInfoBounds<W, C, M> {
	fn weight_with_limit(message: &Xcm<C>, left: &mut u32) -> Result<Weight, ()> {
		*left = left.checked_sub(message.0.len() as u32).ok_or(())?;
		let mut r = Weight::zero();
		for i in &message.0 {
			r = r.checked_add(&Self::instr_with_limit(i, left)?).ok_or(())?;
		}
		Ok(r)
	}
	fn instr_with_limit(i: &Instruction<C>, left: &mut u32) -> Result<Weight, ()> {
		let inner = match i {
			Transact { require_weight_at_most, .. } => *require_weight_at_most,
			SetErrorHandler(xcm) | SetAppendix(xcm) => Self::weight_with_limit(xcm, left)?,
			_ => Weight::zero(),
		};
		xcm::latest::GetWeight::<W>::weight(i).checked_add(&inner).ok_or(())
	}
}
impl<W: XcmWeightInfo<C>, C: codec::Decode, M: Get<u32>> WeightBounds<C> for WeightInfoBounds<W, C, M> {
	fn weight(message: &mut Xcm<C>) -> Result<Weight, ()> {
		Self::weight_with_limit(message, &mut M::get())
	}
	fn instr_weight(i: &Instruction<C>) -> Result<Weight, ()> {
		Self::instr_with_limit(i, &mut u32::MAX.clone())
	}
}
pub struct UsingComponents<W, A, AccountId, F: fungible::Inspect<AccountId>, R: OnUnbalanced<fungible::Credit<AccountId, F>>>(
	Weight,
	u128,
	PhantomData<(W, A, AccountId, F, R)>,
);
impl<W, A: Get<Location>, AccountId, F, R> WeightTrader for UsingComponents<W, A, AccountId, F, R>
where
	W: frame_support::weights::WeightToFee<Balance = F::Balance>,
	F: fungible::Inspect<AccountId>,
	R: OnUnbalanced<fungible::Credit<AccountId, F>>,
{
	fn new() -> Self {
		Self(Weight::zero(), 0, PhantomData)
	}
	fn buy_weight(&mut self, weight: Weight, mut payment: AssetsInHolding, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		let amount: u128 = W::weight_to_fee(&weight).saturated_into();
		if payment.try_take(Asset { id: AssetId(A::get()), fun: Fungible(amount) }).is_none() {
			return Err(XcmError::TooExpensive);
		}
		self.0 = self.0.saturating_add(weight);
		self.1 = self.1.saturating_add(amount);
		Ok(payment)
	}
	fn refund_weight(&mut self, weight: Weight, _: &XcmContext) -> Option<Asset> {
		let weight = weight.min(self.0);
		let amount: u128 = W::weight_to_fee(&weight).saturated_into();
		let amount = amount.min(self.1);
		self.0 = self.0.saturating_sub(weight);
		self.1 -= amount;
		(amount > 0).then(|| Asset { id: AssetId(A::get()), fun: Fungible(amount) })
	}
}
impl<W, A, AccountId, F: fungible::Inspect<AccountId>, R: OnUnbalanced<fungible::Credit<AccountId, F>>> Drop
	for UsingComponents<W, A, AccountId, F, R>
{
	fn drop(&mut self) {
		if self.1 > 0 {
			R::on_unbalanced(fungible::Credit::of(self.1));
		}
	}
}
pub struct FrameTransactionalProcessor;
impl ProcessTransaction for FrameTransactionalProcessor {
	fn process<F: FnOnce() -> Result<(), XcmError>>(f: F) -> Result<(), XcmError> {
		let mut out = Ok(());
		let _ = frame_support::storage::with_storage_layer::<(), sp_runtime::DispatchError>(|| {
			out = f();
			out.map_err(|_| sp_runtime::DispatchError::Other("failed"))
		});
		out
	}
}

// ---- messages ----
pub struct ProcessXcmMessage<MessageOrigin, Executor, Call>(PhantomData<(MessageOrigin, Executor, Call)>);
impl<O: Into<Location>, E: ExecuteXcm<Call>, Call> ProcessMessage for ProcessXcmMessage<O, E, Call> {
	type Origin = O;
	fn process_message(message: &[u8], origin: O, limit: Weight, id: &mut [u8; 32]) -> Result<bool, ProcessMessageError> {
		let versioned = <xcm::VersionedXcm<Call> as codec::Decode>::decode(&mut &message[..]).map_err(|_| ProcessMessageError::Corrupt)?;
		let pre = E::prepare(versioned.into_latest()).map_err(|_| ProcessMessageError::Unsupported)?;
		if pre.weight_of().any_gt(limit) {
			return Err(ProcessMessageError::Overweight(pre.weight_of()));
		}
		match E::execute(origin, pre, id, Weight::zero()) {
			Outcome::Complete { .. } => Ok(true),
			Outcome::Incomplete { .. } => Ok(false),
			Outcome::Error { error } => Err(match error {
				XcmError::ExceedsStackLimit => ProcessMessageError::StackLimitReached,
				_ => ProcessMessageError::Unsupported,
			}),
		}
	}
}
pub struct IsChildSystemParachain<ParaId>(PhantomData<ParaId>);
impl<ParaId: From<u32> + Ord> Contains<Location> for IsChildSystemParachain<ParaId> {
	fn contains(l: &Location) -> bool {
		matches!(l.unpack(), (0, [Parachain(id)]) if ParaId::from(*id) < ParaId::from(2000))
	}
}
