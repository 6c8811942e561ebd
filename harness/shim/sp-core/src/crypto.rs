//! Fixed-size hashes and account ids.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use serde::{Deserialize, Serialize};

macro_rules! fixed {
	($n:ident, $l:expr) => {
		#[derive(
			Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, Default,
			Serialize, Deserialize,
		)]
		pub struct $n(pub [u8; $l]);
		impl $n {
			pub const fn repeat_byte(b: u8) -> Self {
				Self([b; $l])
			}
			pub const fn zero() -> Self {
				Self([0; $l])
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_fixed_bytes(&self) -> &[u8; $l] {
				&self.0
			}
			pub fn to_fixed_bytes(self) -> [u8; $l] {
				self.0
			}
			pub fn from_slice(s: &[u8]) -> Self {
				Self(s.try_into().expect("right length"))
			}
			pub fn is_zero(&self) -> bool {
				self.0 == [0; $l]
			}
		}
		impl core::fmt::Debug for $n {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
				write!(f, "0x")?;
				self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
			}
		}
		impl core::fmt::Display for $n {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
				core::fmt::Debug::fmt(self, f)
			}
		}
		impl AsRef<[u8]> for $n {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $n {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl AsRef<[u8; $l]> for $n {
			fn as_ref(&self) -> &[u8; $l] {
				&self.0
			}
		}
		impl From<[u8; $l]> for $n {
			fn from(b: [u8; $l]) -> Self {
				Self(b)
			}
		}
		impl From<$n> for [u8; $l] {
			fn from(b: $n) -> Self {
				b.0
			}
		}
		impl<'a> TryFrom<&'a [u8]> for $n {
			type Error = ();
			fn try_from(b: &'a [u8]) -> Result<Self, ()> {
				Ok(Self(b.try_into().map_err(|_| ())?))
			}
		}
	};
}
fixed!(H256, 32);
fixed!(H160, 20);
fixed!(Account32Bytes, 32);

impl H256 {
	pub fn from_low_u64_be(v: u64) -> Self {
		let mut b = [0; 32];
		b[24..].copy_from_slice(&v.to_be_bytes());
		Self(b)
	}
}

#[derive(
	Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, Serialize, Deserialize,
)]
pub struct AccountId32([u8; 32]);
impl AccountId32 {
	pub const fn new(b: [u8; 32]) -> Self {
		Self(b)
	}
}
impl core::fmt::Debug for AccountId32 {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
	}
}
impl core::fmt::Display for AccountId32 {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		core::fmt::Debug::fmt(self, f)
	}
}
impl AsRef<[u8]> for AccountId32 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsRef<[u8; 32]> for AccountId32 {
	fn as_ref(&self) -> &[u8; 32] {
		&self.0
	}
}
impl AsMut<[u8]> for AccountId32 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}
impl From<[u8; 32]> for AccountId32 {
	fn from(b: [u8; 32]) -> Self {
		Self(b)
	}
}
impl From<AccountId32> for [u8; 32] {
	fn from(b: AccountId32) -> Self {
		b.0
	}
}
impl From<H256> for AccountId32 {
	fn from(b: H256) -> Self {
		Self(b.0)
	}
}
impl<'a> TryFrom<&'a [u8]> for AccountId32 {
	type Error = ();
	fn try_from(b: &'a [u8]) -> Result<Self, ()> {
		Ok(Self(b.try_into().map_err(|_| ())?))
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode)]
pub struct KeyTypeId(pub [u8; 4]);

#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct OpaqueMetadata(pub Vec<u8>);
