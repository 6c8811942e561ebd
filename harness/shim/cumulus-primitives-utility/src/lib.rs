//! Stand-in for cumulus-primitives-utility: routing to the relay chain, and buying execution with assets.
use codec::Encode;
use cumulus_primitives_core::UpwardMessageSender;
use frame_support::traits::{fungibles, Get};
use parachains_common::xcm_config::ChargeWeightInFungibles;
use sp_runtime::SaturatedConversion;
use std::marker::PhantomData;
use xcm::{latest::prelude::*, VersionedXcm};
use xcm_executor::{
	traits::{MatchesFungibles, TransactAsset, WeightTrader},
	AssetsInHolding,
};

pub struct ParentAsUmp<T, W, P>(PhantomData<(T, W, P)>);
impl<T: UpwardMessageSender, W, P> SendXcm for ParentAsUmp<T, W, P> {
	type Ticket = Vec<u8>;
	fn validate(dest: &mut Option<Location>, msg: &mut Option<Xcm<()>>) -> SendResult<Vec<u8>> {
		let d = dest.take().ok_or(SendError::MissingArgument)?;
		if d.contains_parents_only(1) {
			let xcm = msg.take().ok_or(SendError::MissingArgument)?;
			Ok((VersionedXcm::<()>::from(xcm).encode(), Assets::new()))
		} else {
			*dest = Some(d);
			Err(SendError::NotApplicable)
		}
	}
	fn deliver(data: Vec<u8>) -> Result<XcmHash, SendError> {
		let hash = sp_io::hashing::blake2_256(&data);
		T::send_upward_message(data).map_err(|_| SendError::ExceedsMaxMessageSize)?;
		Ok(hash)
	}
}

pub trait TakeRevenue {
	fn take_revenue(revenue: Asset);
}
pub struct XcmFeesTo32ByteAccount<Mutator, AccountId, Receiver>(PhantomData<(Mutator, AccountId, Receiver)>);
impl<M: TransactAsset, AccountId: Clone + Into<[u8; 32]>, R: Get<AccountId>> TakeRevenue for XcmFeesTo32ByteAccount<M, AccountId, R> {
	fn take_revenue(revenue: Asset) {
		let who: Location = Junction::AccountId32 { network: None, id: R::get().into() }.into();
		let _ = M::deposit_asset(&revenue, &who, None);
	}
}
/// Buys execution with the first asset it is offered.
pub struct TakeFirstAssetTrader<AccountId, Charger, Matcher, Concrete, Refund: TakeRevenue>(
	Option<(Weight, AssetId, u128)>,
	PhantomData<(AccountId, Charger, Matcher, Concrete, Refund)>,
);
impl<AccountId, Charger, Matcher, Concrete, Refund> WeightTrader for TakeFirstAssetTrader<AccountId, Charger, Matcher, Concrete, Refund>
where
	Concrete: fungibles::Inspect<AccountId>,
	Charger: ChargeWeightInFungibles<AccountId, Concrete>,
	Matcher: MatchesFungibles<Concrete::AssetId, Concrete::Balance>,
	Refund: TakeRevenue,
{
	fn new() -> Self {
		Self(None, PhantomData)
	}
	fn buy_weight(&mut self, weight: Weight, mut payment: AssetsInHolding, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		if self.0.is_some() {
			return Err(XcmError::NotWithdrawable);
		}
		let first = payment.fungible_assets().into_iter().next().ok_or(XcmError::AssetNotFound)?;
		let (local, _) = Matcher::matches_fungibles(&first).map_err(|_| XcmError::AssetNotFound)?;
		let minimum = Concrete::minimum_balance(local.clone());
		let amount = Charger::charge_weight_in_fungibles(local, weight).map_err(|_| XcmError::Overflow)?;
		let amount = if amount > minimum { amount } else { minimum };
		let amount: u128 = amount.saturated_into();
		payment
			.try_take(Asset { id: first.id.clone(), fun: Fungible(amount) })
			.ok_or(XcmError::TooExpensive)?;
		self.0 = Some((weight, first.id, amount));
		Ok(payment)
	}
	fn refund_weight(&mut self, weight: Weight, _: &XcmContext) -> Option<Asset> {
		let (mut left, id, paid) = self.0.clone()?;
		let one: Asset = Asset { id: id.clone(), fun: Fungible(1) };
		let (local, _) = Matcher::matches_fungibles(&one).ok()?;
		let minimum: u128 = Concrete::minimum_balance(local.clone()).saturated_into();
		let weight = weight.min(left);
		let back: u128 = Charger::charge_weight_in_fungibles(local, weight).ok()?.saturated_into();
		left = left.saturating_sub(weight);
		let back = back.min(paid.saturating_sub(minimum));
		self.0 = Some((left, id.clone(), paid - back));
		(back > 0).then(|| Asset { id, fun: Fungible(back) })
	}
}
impl<AccountId, Charger, Matcher, Concrete, Refund: TakeRevenue> Drop for TakeFirstAssetTrader<AccountId, Charger, Matcher, Concrete, Refund> {
	fn drop(&mut self) {
		if let Some((_, id, n)) = self.0.take() {
			if n > 0 {
				Refund::take_revenue(Asset { id, fun: Fungible(n) });
			}
		}
	}
}
