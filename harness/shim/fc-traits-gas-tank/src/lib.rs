//! Stand-in for fc-traits-gas-tank: memberships with a tank of weight that is used up (and, here, not filled again).
use codec::{Decode, Encode};
use frame_support::{
	traits::nonfungibles_v2::{InspectEnumerable, Mutate},
	weights::Weight,
};

pub const TANK: &[u8] = b"membership_gas";
/// What is left in a membership's tank is kept with it.
pub struct NonFungibleGasBurner<T, F, ItemConfig>(core::marker::PhantomData<(T, F, ItemConfig)>);
pub trait GasBurner<AccountId> {
	type Tank;
	/// A tank of the account's with enough left.
	fn check_available_gas(who: &AccountId, estimated: &Weight) -> Option<Self::Tank>;
	fn burn_gas(tank: Self::Tank, used: &Weight) -> Weight;
}
impl<T: frame_system::Config, F: InspectEnumerable<T::AccountId> + Mutate<T::AccountId, ItemConfig>, ItemConfig> GasBurner<T::AccountId>
	for NonFungibleGasBurner<T, F, ItemConfig>
{
	type Tank = (F::CollectionId, F::ItemId, Weight);
	fn check_available_gas(who: &T::AccountId, estimated: &Weight) -> Option<Self::Tank> {
		F::owned(who).find_map(|(c, i)| {
			let left = Weight::decode(&mut &F::system_attribute(&c, Some(&i), TANK)?[..]).ok()?;
			estimated.all_lte(left).then_some((c, i, left))
		})
	}
	fn burn_gas((c, i, left): Self::Tank, used: &Weight) -> Weight {
		let left = left.saturating_sub(*used);
		let _ = F::set_attribute(&c, &i, TANK, &left.encode());
		left
	}
}
