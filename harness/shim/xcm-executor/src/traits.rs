use crate::AssetsInHolding;
pub use frame_support::traits::ProcessMessageError;
use sp_runtime::traits::{Dispatchable, MaybeEquivalence};
use xcm::latest::prelude::*;

pub trait ConvertLocation<AccountId> {
	fn convert_location(location: &Location) -> Option<AccountId>;
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl<AccountId> ConvertLocation<AccountId> for Tuple {
	fn convert_location(l: &Location) -> Option<AccountId> {
		for_tuples!( #( if let Some(r) = Tuple::convert_location(l) { return Some(r) } )* );
		None
	}
}
pub trait ConvertOrigin<Origin> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<Origin, Location>;
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl<O> ConvertOrigin<O> for Tuple {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		for_tuples!( #( let origin = match Tuple::convert_origin(origin, kind) { Err(o) => o, r => return r }; )* );
		Err(origin)
	}
}
pub struct Properties {
	pub weight_credit: Weight,
	pub message_id: Option<XcmHash>,
}
pub trait ShouldExecute {
	fn should_execute<C>(
		origin: &Location,
		instructions: &mut [Instruction<C>],
		max_weight: Weight,
		properties: &mut Properties,
	) -> Result<(), ProcessMessageError>;
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl ShouldExecute for Tuple {
	fn should_execute<C>(
		origin: &Location,
		instructions: &mut [Instruction<C>],
		max_weight: Weight,
		properties: &mut Properties,
	) -> Result<(), ProcessMessageError> {
		for_tuples!( #( if Tuple::should_execute(origin, instructions, max_weight, properties).is_ok() { return Ok(()) } )* );
		Err(ProcessMessageError::Unsupported)
	}
}
pub trait TransactAsset {
	fn deposit_asset(what: &Asset, who: &Location, context: Option<&XcmContext>) -> XcmResult;
	fn withdraw_asset(what: &Asset, who: &Location, context: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError>;
	fn internal_transfer_asset(_a: &Asset, _from: &Location, _to: &Location, _c: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		Err(XcmError::Unimplemented)
	}
	fn transfer_asset(a: &Asset, from: &Location, to: &Location, c: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		match Self::internal_transfer_asset(a, from, to, c) {
			Err(XcmError::AssetNotFound | XcmError::Unimplemented) => {
				let assets = Self::withdraw_asset(a, from, Some(c))?;
				Self::deposit_asset(a, to, Some(c))?;
				Ok(assets)
			}
			r => r,
		}
	}
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl TransactAsset for Tuple {
	fn deposit_asset(what: &Asset, who: &Location, context: Option<&XcmContext>) -> XcmResult {
		for_tuples!( #( match Tuple::deposit_asset(what, who, context) { Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (), r => return r } )* );
		Err(XcmError::AssetNotFound)
	}
	fn withdraw_asset(what: &Asset, who: &Location, context: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
		for_tuples!( #( match Tuple::withdraw_asset(what, who, context) { Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (), r => return r } )* );
		Err(XcmError::AssetNotFound)
	}
	fn internal_transfer_asset(a: &Asset, from: &Location, to: &Location, c: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		for_tuples!( #( match Tuple::internal_transfer_asset(a, from, to, c) { Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (), r => return r } )* );
		Err(XcmError::AssetNotFound)
	}
}
pub trait WeightTrader: Sized {
	fn new() -> Self;
	fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, context: &XcmContext) -> Result<AssetsInHolding, XcmError>;
	fn refund_weight(&mut self, _weight: Weight, _context: &XcmContext) -> Option<Asset> {
		None
	}
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl WeightTrader for Tuple {
	fn new() -> Self {
		for_tuples!( ( #( Tuple::new() ),* ) )
	}
	fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, context: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		let mut too_expensive = false;
		for_tuples!( #( match Tuple.buy_weight(weight, payment.clone(), context) {
			Ok(assets) => return Ok(assets),
			Err(e) => if e == XcmError::TooExpensive { too_expensive = true },
		} )* );
		Err(if too_expensive { XcmError::TooExpensive } else { XcmError::AssetNotFound })
	}
	fn refund_weight(&mut self, weight: Weight, context: &XcmContext) -> Option<Asset> {
		for_tuples!( #( if let Some(a) = Tuple.refund_weight(weight, context) { return Some(a) } )* );
		None
	}
}
pub trait WeightBounds<Call> {
	fn weight(message: &mut Xcm<Call>) -> Result<Weight, ()>;
	fn instr_weight(instruction: &Instruction<Call>) -> Result<Weight, ()>;
}
pub trait DropAssets {
	fn drop_assets(origin: &Location, assets: AssetsInHolding, context: &XcmContext) -> Weight;
}
pub trait ClaimAssets {
	fn claim_assets(origin: &Location, ticket: &Location, what: &Assets, context: &XcmContext) -> bool;
}
pub trait CallDispatcher<Call: Dispatchable> {
	fn dispatch(call: Call, origin: Call::RuntimeOrigin) -> Result<(), Vec<u8>>;
}
impl<C: Dispatchable> CallDispatcher<C> for C {
	fn dispatch(call: C, origin: C::RuntimeOrigin) -> Result<(), Vec<u8>> {
		call.dispatch(origin).map(|_| ()).map_err(|e| codec::Encode::encode(&e.error))
	}
}
pub trait ProcessTransaction {
	fn process<F: FnOnce() -> Result<(), XcmError>>(f: F) -> Result<(), XcmError>;
}
impl ProcessTransaction for () {
	fn process<F: FnOnce() -> Result<(), XcmError>>(f: F) -> Result<(), XcmError> {
		f()
	}
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Error {
	AssetNotHandled,
	AccountIdConversionFailed,
	AmountToBalanceConversionFailed,
	AssetIdConversionFailed,
	InstanceConversionFailed,
}
impl From<Error> for XcmError {
	fn from(e: Error) -> Self {
		match e {
			Error::AssetNotHandled => XcmError::AssetNotFound,
			Error::AccountIdConversionFailed => XcmError::FailedToTransactAsset("AccountIdConversionFailed"),
			Error::AmountToBalanceConversionFailed => XcmError::FailedToTransactAsset("AmountToBalanceConversionFailed"),
			Error::AssetIdConversionFailed => XcmError::FailedToTransactAsset("AssetIdConversionFailed"),
			Error::InstanceConversionFailed => XcmError::FailedToTransactAsset("InstanceConversionFailed"),
		}
	}
}
pub trait MatchesFungible<Balance> {
	fn matches_fungible(a: &Asset) -> Option<Balance>;
}
impl<B> MatchesFungible<B> for () {
	fn matches_fungible(_: &Asset) -> Option<B> {
		None
	}
}
pub trait MatchesFungibles<AssetId, Balance> {
	fn matches_fungibles(a: &Asset) -> Result<(AssetId, Balance), Error>;
}
pub struct JustTry;
impl<Source: TryFrom<Dest> + Clone, Dest: TryFrom<Source> + Clone> MaybeEquivalence<Source, Dest> for JustTry {
	fn convert(a: &Source) -> Option<Dest> {
		a.clone().try_into().ok()
	}
	fn convert_back(b: &Dest) -> Option<Source> {
		b.clone().try_into().ok()
	}
}
pub struct Identity;
impl<T: Clone> MaybeEquivalence<T, T> for Identity {
	fn convert(a: &T) -> Option<T> {
		Some(a.clone())
	}
	fn convert_back(a: &T) -> Option<T> {
		Some(a.clone())
	}
}
