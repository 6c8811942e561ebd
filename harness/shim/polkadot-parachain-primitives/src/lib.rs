//! Stand-in for polkadot-parachain-primitives: ids of chains and their accounts.
pub mod primitives {
	use codec::{CompactAs, Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	use sp_runtime::traits::TypeId;
	#[derive(Clone, Copy, CompactAs, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, Default, Hash, MaxEncodedLen, TypeInfo)]
	pub struct Id(u32);
	impl Id {
		pub const fn new(id: u32) -> Self {
			Self(id)
		}
	}
	impl From<u32> for Id {
		fn from(x: u32) -> Self {
			Id(x)
		}
	}
	impl From<Id> for u32 {
		fn from(x: Id) -> Self {
			x.0
		}
	}
	impl TypeId for Id {
		const TYPE_ID: [u8; 4] = *b"para";
	}
	pub trait IsSystem {
		fn is_system(&self) -> bool;
	}
	impl IsSystem for Id {
		fn is_system(&self) -> bool {
			self.0 < 2000
		}
	}
	#[derive(Clone, Copy, Decode, Default, Encode, Eq, MaxEncodedLen, PartialEq, Ord, PartialOrd, Debug, TypeInfo)]
	pub struct Sibling(pub Id);
	impl From<Id> for Sibling {
		fn from(i: Id) -> Self {
			Self(i)
		}
	}
	impl From<Sibling> for Id {
		fn from(i: Sibling) -> Self {
			i.0
		}
	}
	impl From<Sibling> for u32 {
		fn from(i: Sibling) -> Self {
			(i.0).into()
		}
	}
	impl From<u32> for Sibling {
		fn from(i: u32) -> Self {
			Self(i.into())
		}
	}
	impl TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
}
