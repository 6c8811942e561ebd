//! Stand-in for polkadot-runtime-common.
use frame_support::parameter_types;
use frame_support::weights::Weight;
#[macro_export]
macro_rules! prod_or_fast {
	($prod:expr, $test:expr) => {
		$prod
	};
	($prod:expr, $test:expr, $env:expr) => {
		$prod
	};
}
parameter_types! {
	pub const BlockHashCount: u32 = 4096;
}
pub const MAXIMUM_BLOCK_WEIGHT: Weight = Weight::from_parts(2_000_000_000_000, 5 * 1024 * 1024);
pub struct SlowAdjustingFeeUpdate<R>(core::marker::PhantomData<R>);
pub mod xcm_sender {
	use core::marker::PhantomData;
	pub struct NoPriceForMessageDelivery<Id>(PhantomData<Id>);
	pub struct ExponentialPrice<A, B, M, F>(PhantomData<(A, B, M, F)>);
}
