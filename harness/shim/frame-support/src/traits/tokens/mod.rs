pub mod currency;
pub mod fungible;
pub mod fungibles;
pub mod imbalance;
mod misc;
pub mod nonfungible_v2;
pub mod nonfungibles_v2;
pub use misc::*;
pub use imbalance::Imbalance;
pub mod pay {
	pub trait Pay {}
	pub struct PayFromAccount<F, A>(core::marker::PhantomData<(F, A)>);
	pub struct PayAssetFromAccount<F, A>(core::marker::PhantomData<(F, A)>);
}
pub use pay::{Pay, PayAssetFromAccount, PayFromAccount};
pub struct UnityAssetBalanceConversion;
