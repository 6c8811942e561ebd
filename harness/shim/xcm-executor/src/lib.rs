//! Stand-in for staging-xcm-executor: runs cross-chain programs against a chain's configuration.
use codec::Decode;
use frame_support::{
	dispatch::GetDispatchInfo,
	traits::{Contains, ContainsPair, Get},
};
use sp_runtime::traits::Dispatchable;
use std::marker::PhantomData;
use traits::*;
use xcm::latest::prelude::*;

pub mod traits;
mod assets;
pub use assets::AssetsInHolding;

pub trait Config {
	type RuntimeCall: Decode + GetDispatchInfo + Dispatchable;
	type XcmSender: SendXcm;
	type AssetTransactor: TransactAsset;
	type OriginConverter: ConvertOrigin<<Self::RuntimeCall as Dispatchable>::RuntimeOrigin>;
	type IsReserve: ContainsPair<Asset, Location>;
	type IsTeleporter: ContainsPair<Asset, Location>;
	type Aliasers: ContainsPair<Location, Location>;
	type UniversalLocation: Get<InteriorLocation>;
	type Barrier: ShouldExecute;
	type Weigher: WeightBounds<Self::RuntimeCall>;
	type Trader: WeightTrader;
	type ResponseHandler;
	type AssetTrap: DropAssets;
	type AssetLocker;
	type AssetExchanger;
	type AssetClaims: ClaimAssets;
	type SubscriptionService;
	type PalletInstancesInfo;
	type MaxAssetsIntoHolding: Get<u32>;
	type FeeManager;
	type MessageExporter;
	type UniversalAliases: Contains<(Location, Junction)>;
	type CallDispatcher: CallDispatcher<Self::RuntimeCall>;
	type SafeCallFilter: Contains<Self::RuntimeCall>;
	type TransactionalProcessor: ProcessTransaction;
	type HrmpNewChannelOpenRequestHandler;
	type HrmpChannelAcceptedHandler;
	type HrmpChannelClosingHandler;
	type XcmRecorder;
}

pub struct WeighedMessage<Call>(Weight, Xcm<Call>);
impl<C> PreparedMessage for WeighedMessage<C> {
	fn weight_of(&self) -> Weight {
		self.0
	}
}

pub struct XcmExecutor<C: Config> {
	holding: AssetsInHolding,
	context: XcmContext,
	original_origin: Location,
	trader: C::Trader,
	error: Option<(u32, XcmError)>,
	total_surplus: Weight,
	total_refunded: Weight,
	error_handler: Xcm<C::RuntimeCall>,
	error_handler_weight: Weight,
	appendix: Xcm<C::RuntimeCall>,
	appendix_weight: Weight,
	transact_status: MaybeErrorCode,
	_config: PhantomData<C>,
}

impl<C: Config> ExecuteXcm<C::RuntimeCall> for XcmExecutor<C> {
	type Prepared = WeighedMessage<C::RuntimeCall>;
	fn prepare(mut message: Xcm<C::RuntimeCall>) -> Result<Self::Prepared, Xcm<C::RuntimeCall>> {
		match C::Weigher::weight(&mut message) {
			Ok(weight) => Ok(WeighedMessage(weight, message)),
			Err(()) => Err(message),
		}
	}
	fn execute(origin: impl Into<Location>, pre: Self::Prepared, id: &mut XcmHash, weight_credit: Weight) -> Outcome {
		let WeighedMessage(xcm_weight, mut message) = pre;
		let origin: Location = origin.into();
		let mut properties = Properties { weight_credit, message_id: None };
		if C::Barrier::should_execute(&origin, message.inner_mut(), xcm_weight, &mut properties).is_err() {
			return Outcome::Error { error: XcmError::Barrier };
		}
		*id = properties.message_id.unwrap_or(*id);
		let mut vm = Self::new(origin, *id);
		while !message.0.is_empty() {
			let result = vm.process(message);
			message = match result {
				Err((index, error, weight)) => {
					vm.total_surplus.saturating_accrue(weight);
					vm.error = Some((index, error));
					vm.take_error_handler().unwrap_or_else(|| vm.take_appendix().unwrap_or_default())
				}
				Ok(()) => {
					vm.drop_error_handler();
					vm.take_appendix().unwrap_or_default()
				}
			};
		}
		vm.post_process(xcm_weight)
	}
}

impl<C: Config> XcmExecutor<C> {
	pub fn new(origin: Location, message_id: XcmHash) -> Self {
		Self {
			holding: AssetsInHolding::new(),
			context: XcmContext { origin: Some(origin.clone()), message_id, topic: None },
			original_origin: origin,
			trader: C::Trader::new(),
			error: None,
			total_surplus: Weight::zero(),
			total_refunded: Weight::zero(),
			error_handler: Xcm(vec![]),
			error_handler_weight: Weight::zero(),
			appendix: Xcm(vec![]),
			appendix_weight: Weight::zero(),
			transact_status: MaybeErrorCode::Success,
			_config: PhantomData,
		}
	}
	fn origin_ref(&self) -> Option<&Location> {
		self.context.origin.as_ref()
	}
	fn cloned_origin(&self) -> Option<Location> {
		self.context.origin.clone()
	}
	fn take_error_handler(&mut self) -> Option<Xcm<C::RuntimeCall>> {
		let r = std::mem::take(&mut self.error_handler);
		self.error_handler_weight = Weight::zero();
		(!r.0.is_empty()).then_some(r)
	}
	fn drop_error_handler(&mut self) {
		self.error_handler = Xcm(vec![]);
		self.total_surplus.saturating_accrue(self.error_handler_weight);
		self.error_handler_weight = Weight::zero();
	}
	fn take_appendix(&mut self) -> Option<Xcm<C::RuntimeCall>> {
		let r = std::mem::take(&mut self.appendix);
		self.appendix_weight = Weight::zero();
		(!r.0.is_empty()).then_some(r)
	}
	fn post_process(mut self, xcm_weight: Weight) -> Outcome {
		let _ = self.refund_surplus();
		drop(self.trader);
		let mut used = xcm_weight.saturating_sub(self.total_surplus);
		if !self.holding.is_empty() {
			let claimer = self.context.origin.as_ref().unwrap_or(&self.original_origin).clone();
			used.saturating_accrue(C::AssetTrap::drop_assets(&claimer, self.holding, &self.context));
		}
		match self.error {
			None => Outcome::Complete { used },
			Some((_, error)) => Outcome::Incomplete { used, error },
		}
	}
	fn refund_surplus(&mut self) -> Result<(), XcmError> {
		let w = self.total_surplus.saturating_sub(self.total_refunded);
		if w.any_gt(Weight::zero()) {
			self.total_refunded.saturating_accrue(w);
			if let Some(a) = self.trader.refund_weight(w, &self.context) {
				self.holding.subsume(a);
			}
		}
		Ok(())
	}
	fn subsume(&mut self, asset: Asset) -> Result<(), XcmError> {
		if self.holding.len() + 1 > C::MaxAssetsIntoHolding::get() as usize * 2 {
			return Err(XcmError::HoldingWouldOverflow);
		}
		self.holding.subsume(asset);
		Ok(())
	}
	fn reanchored(assets: AssetsInHolding, dest: &Location) -> Assets {
		let ctx = C::UniversalLocation::get();
		let out: Vec<Asset> = assets.into_assets().into_iter().filter_map(|a| a.reanchored(dest, &ctx).ok()).collect();
		out.into()
	}
	fn send(dest: Location, msg: Xcm<()>) -> Result<(), XcmError> {
		send_xcm::<C::XcmSender>(dest, msg).map(|_| ()).map_err(Into::into)
	}
	fn process(&mut self, xcm: Xcm<C::RuntimeCall>) -> Result<(), (u32, XcmError, Weight)> {
		let mut result = Ok(());
		for (i, instr) in xcm.0.into_iter().enumerate() {
			match &mut result {
				Ok(()) =>
					if let Err(e) = self.process_instruction(instr) {
						result = Err((i as u32, e, Weight::zero()));
					},
				Err((_, _, w)) =>
					if let Ok(x) = C::Weigher::instr_weight(&instr) {
						w.saturating_accrue(x)
					},
			}
		}
		result
	}
	fn transact(&mut self, f: impl FnOnce(&mut Self) -> Result<(), XcmError>) -> Result<(), XcmError> {
		let old = self.holding.clone();
		let r = {
			let this = &mut *self;
			C::TransactionalProcessor::process(|| f(this))
		};
		if r.is_err() {
			self.holding = old;
		}
		r
	}
	fn process_instruction(&mut self, instr: Instruction<C::RuntimeCall>) -> Result<(), XcmError> {
		match instr {
			WithdrawAsset(assets) => {
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				self.transact(|me| {
					for a in assets.into_inner() {
						let got = C::AssetTransactor::withdraw_asset(&a, &origin, Some(&me.context))?;
						for a in got.into_assets() {
							me.subsume(a)?;
						}
					}
					Ok(())
				})
			}
			ReserveAssetDeposited(assets) => {
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				for a in assets.inner() {
					if !C::IsReserve::contains(a, &origin) {
						return Err(XcmError::UntrustedReserveLocation);
					}
				}
				for a in assets.into_inner() {
					self.subsume(a)?;
				}
				Ok(())
			}
			ReceiveTeleportedAsset(assets) => {
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				for a in assets.inner() {
					if !C::IsTeleporter::contains(a, &origin) {
						return Err(XcmError::UntrustedTeleportLocation);
					}
				}
				for a in assets.into_inner() {
					self.subsume(a)?;
				}
				Ok(())
			}
			TransferAsset { assets, beneficiary } => {
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				self.transact(|me| {
					for a in assets.into_inner() {
						C::AssetTransactor::transfer_asset(&a, &origin, &beneficiary, &me.context)?;
					}
					Ok(())
				})
			}
			TransferReserveAsset { assets, dest, mut xcm } => {
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				self.transact(|me| {
					let mut moved = AssetsInHolding::new();
					for a in assets.into_inner() {
						C::AssetTransactor::transfer_asset(&a, &origin, &dest, &me.context)?;
						moved.subsume(a);
					}
					let mut msg = vec![ReserveAssetDeposited(Self::reanchored(moved, &dest)), ClearOrigin];
					msg.append(&mut xcm.0);
					Self::send(dest, Xcm(msg))
				})
			}
			Transact { origin_kind, require_weight_at_most, call } => {
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				let call = call.take_decoded().map_err(|_| XcmError::FailedToDecode)?;
				if !C::SafeCallFilter::contains(&call) {
					return Err(XcmError::NoPermission);
				}
				let dispatch_origin = C::OriginConverter::convert_origin(origin, origin_kind).map_err(|_| XcmError::BadOrigin)?;
				let weight = call.get_dispatch_info().weight;
				if !weight.all_lte(require_weight_at_most) {
					return Err(XcmError::MaxWeightInvalid);
				}
				self.transact_status = match C::CallDispatcher::dispatch(call, dispatch_origin) {
					Ok(()) => MaybeErrorCode::Success,
					Err(e) => MaybeErrorCode::Error(e),
				};
				Ok(())
			}
			DescendOrigin(who) => match self.context.origin.as_mut() {
				None => Err(XcmError::BadOrigin),
				Some(o) => o.append_with(who).map_err(|_| XcmError::LocationFull),
			},
			ClearOrigin => {
				self.context.origin = None;
				Ok(())
			}
			AliasOrigin(target) => {
				let origin = self.origin_ref().ok_or(XcmError::BadOrigin)?;
				if C::Aliasers::contains(origin, &target) {
					self.context.origin = Some(target);
					Ok(())
				} else {
					Err(XcmError::NoPermission)
				}
			}
			UniversalOrigin(new_global) => {
				let universal = C::UniversalLocation::get();
				if universal.first() == Some(&new_global) {
					return Err(XcmError::InvalidLocation);
				}
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				let origin_xform = (origin, new_global);
				if !C::UniversalAliases::contains(&origin_xform) {
					return Err(XcmError::InvalidLocation);
				}
				self.context.origin = Some(Location { parents: universal.len() as u8, interior: [origin_xform.1].into() });
				Ok(())
			}
			DepositAsset { assets, beneficiary } => self.transact(|me| {
				let deposited = me.holding.saturating_take(assets);
				for a in deposited.into_assets() {
					C::AssetTransactor::deposit_asset(&a, &beneficiary, Some(&me.context))?;
				}
				Ok(())
			}),
			DepositReserveAsset { assets, dest, mut xcm } => self.transact(|me| {
				let deposited = me.holding.saturating_take(assets);
				for a in deposited.clone().into_assets() {
					C::AssetTransactor::deposit_asset(&a, &dest, Some(&me.context))?;
				}
				let mut msg = vec![ReserveAssetDeposited(Self::reanchored(deposited, &dest)), ClearOrigin];
				msg.append(&mut xcm.0);
				Self::send(dest, Xcm(msg))
			}),
			InitiateReserveWithdraw { assets, reserve, mut xcm } => self.transact(|me| {
				let out = me.holding.saturating_take(assets);
				let mut msg = vec![WithdrawAsset(Self::reanchored(out, &reserve)), ClearOrigin];
				msg.append(&mut xcm.0);
				Self::send(reserve, Xcm(msg))
			}),
			BuyExecution { fees, weight_limit } => {
				let WeightLimit::Limited(weight) = weight_limit else { return Ok(()) };
				let old = self.holding.clone();
				let r = (|| {
					let max_fee = self.holding.try_take(fees).ok_or(XcmError::NotHoldingFees)?;
					let unspent = self.trader.buy_weight(weight, max_fee, &self.context)?;
					for a in unspent.into_assets() {
						self.subsume(a)?;
					}
					Ok(())
				})();
				if r.is_err() {
					self.holding = old;
				}
				r
			}
			RefundSurplus => self.refund_surplus(),
			SetErrorHandler(mut handler) => {
				let w = C::Weigher::weight(&mut handler).map_err(|_| XcmError::WeightNotComputable)?;
				self.total_surplus.saturating_accrue(self.error_handler_weight);
				self.error_handler = handler;
				self.error_handler_weight = w;
				Ok(())
			}
			SetAppendix(mut appendix) => {
				let w = C::Weigher::weight(&mut appendix).map_err(|_| XcmError::WeightNotComputable)?;
				self.total_surplus.saturating_accrue(self.appendix_weight);
				self.appendix = appendix;
				self.appendix_weight = w;
				Ok(())
			}
			ClearError => {
				self.error = None;
				Ok(())
			}
			ClaimAsset { assets, ticket } => {
				let origin = self.cloned_origin().ok_or(XcmError::BadOrigin)?;
				if !C::AssetClaims::claim_assets(&origin, &ticket, &assets, &self.context) {
					return Err(XcmError::UnknownClaim);
				}
				for a in assets.into_inner() {
					self.subsume(a)?;
				}
				Ok(())
			}
			Trap(code) => Err(XcmError::Trap(code)),
			BurnAsset(assets) => {
				self.holding.saturating_take(AssetFilter::Definite(assets));
				Ok(())
			}
			ExpectAsset(assets) =>
				if assets.inner().iter().all(|a| self.holding.clone().try_take(a.clone()).is_some()) {
					Ok(())
				} else {
					Err(XcmError::ExpectationFalse)
				},
			ExpectOrigin(origin) =>
				if self.context.origin == origin {
					Ok(())
				} else {
					Err(XcmError::ExpectationFalse)
				},
			ExpectError(error) =>
				if self.error == error {
					Ok(())
				} else {
					Err(XcmError::ExpectationFalse)
				},
			ExpectTransactStatus(s) =>
				if self.transact_status == s {
					Ok(())
				} else {
					Err(XcmError::ExpectationFalse)
				},
			ClearTransactStatus => {
				self.transact_status = MaybeErrorCode::Success;
				Ok(())
			}
			SetTopic(t) => {
				self.context.topic = Some(t);
				Ok(())
			}
			ClearTopic => {
				self.context.topic = None;
				Ok(())
			}
			SetFeesMode { .. } => Ok(()),
			UnpaidExecution { check_origin, .. } =>
				if check_origin.is_some() && self.context.origin != check_origin {
					Err(XcmError::BadOrigin)
				} else {
					Ok(())
				},
			_ => Err(XcmError::Unimplemented),
		}
	}
}
