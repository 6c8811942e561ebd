//! Stand-in for cumulus-primitives-core.
use codec::{Decode, Encode, MaxEncodedLen};
pub use polkadot_parachain_primitives::primitives::Id as ParaId;
use scale_info::TypeInfo;
pub use xcm::latest::AssetId;
pub mod relay_chain {
	pub use polkadot_primitives::*;
}
#[derive(Encode, Decode, Clone, MaxEncodedLen, Eq, PartialEq, Debug, TypeInfo)]
pub enum AggregateMessageOrigin {
	Here,
	Parent,
	Sibling(ParaId),
}
impl From<AggregateMessageOrigin> for xcm::latest::Location {
	fn from(o: AggregateMessageOrigin) -> Self {
		use xcm::latest::prelude::*;
		match o {
			AggregateMessageOrigin::Here => Location::here(),
			AggregateMessageOrigin::Parent => Location::parent(),
			AggregateMessageOrigin::Sibling(id) => Location::new(1, [Parachain(id.into())]),
		}
	}
}
/// Where a chain leaves what it wants the relay chain to read.
pub trait UpwardMessageSender {
	fn send_upward_message(message: Vec<u8>) -> Result<(), ()>;
}
