//! Stand-in for parachains-common.
use frame_support::weights::Weight;
use sp_runtime::{generic, traits::BlakeTwo256, MultiSignature, Perbill};

pub type BlockNumber = u32;
pub type Signature = MultiSignature;
pub type AccountId = sp_runtime::AccountId32;
pub type Balance = u128;
pub type Nonce = u32;
pub type Hash = sp_core::H256;
pub type Header = generic::Header<BlockNumber, BlakeTwo256>;
pub type AssetIdForTrustBackedAssets = u32;
pub type AuraId = [u8; 32];
pub mod opaque {}

pub const MILLISECS_PER_BLOCK: u64 = 12000;
pub const MINUTES: BlockNumber = 60_000 / (MILLISECS_PER_BLOCK as BlockNumber);
pub const HOURS: BlockNumber = MINUTES * 60;
pub const DAYS: BlockNumber = HOURS * 24;
pub const AVERAGE_ON_INITIALIZE_RATIO: Perbill = Perbill::from_percent(5);
pub const NORMAL_DISPATCH_RATIO: Perbill = Perbill::from_percent(75);
pub const MAXIMUM_BLOCK_WEIGHT: Weight = Weight::from_parts(2_000_000_000_000, 5 * 1024 * 1024);

pub mod message_queue {
	use core::marker::PhantomData;
	use cumulus_primitives_core::{AggregateMessageOrigin, ParaId};
	pub struct ParaIdToSibling;
	impl sp_runtime::traits::Convert<ParaId, AggregateMessageOrigin> for ParaIdToSibling {
		fn convert(p: ParaId) -> AggregateMessageOrigin {
			AggregateMessageOrigin::Sibling(p)
		}
	}
	pub struct NarrowOriginToSibling<Inner>(PhantomData<Inner>);
}
pub mod impls {
	use core::marker::PhantomData;
	use frame_support::traits::{fungibles, Contains};
	use sp_runtime::traits::Zero;
	/// Assets somebody holds something of.
	pub struct NonZeroIssuance<AccountId, Assets>(PhantomData<(AccountId, Assets)>);
	impl<AccountId, Assets: fungibles::Inspect<AccountId>> Contains<Assets::AssetId> for NonZeroIssuance<AccountId, Assets> {
		fn contains(id: &Assets::AssetId) -> bool {
			!Assets::total_issuance(id.clone()).is_zero()
		}
	}
}
pub mod xcm_config {
	use core::marker::PhantomData;
	use frame_support::traits::{fungibles, tokens::ConversionToAssetBalance};
	use frame_support::weights::{Weight, WeightToFee};
	/// What execution of some weight costs in an asset, in proportion to its minimum balance.
	pub struct AssetFeeAsExistentialDepositMultiplier<Runtime, W, Converter, Instance>(PhantomData<(Runtime, W, Converter, Instance)>);
	pub trait ChargeWeightInFungibles<AccountId, Assets: fungibles::Inspect<AccountId>> {
		fn charge_weight_in_fungibles(asset_id: Assets::AssetId, weight: Weight) -> Result<Assets::Balance, ()>;
	}
	impl<Assets, W, Converter, Runtime, AccountId, Instance> ChargeWeightInFungibles<AccountId, Assets>
		for AssetFeeAsExistentialDepositMultiplier<Runtime, W, Converter, Instance>
	where
		Assets: fungibles::Inspect<AccountId>,
		W: WeightToFee<Balance = u128>,
		Converter: ConversionToAssetBalance<u128, Assets::AssetId, Assets::Balance>,
	{
		fn charge_weight_in_fungibles(asset_id: Assets::AssetId, weight: Weight) -> Result<Assets::Balance, ()> {
			let amount = W::weight_to_fee(&weight);
			let minimum = Assets::minimum_balance(asset_id.clone());
			let fee = Converter::to_asset_balance(amount, asset_id).map_err(|_| ())?;
			Ok(if fee > minimum { fee } else { minimum })
		}
	}
}
