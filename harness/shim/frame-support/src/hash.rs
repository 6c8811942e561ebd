//! Storage hashers.
use codec::Codec;
use sp_core::hashing::{blake2_128, blake2_256, twox_128, twox_256, twox_64};

pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn twox_128(&self) -> [u8; 16];
	fn twox_64_concat(&self) -> Vec<u8>;
}
impl<T: Codec> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] {
		self.using_encoded(blake2_128)
	}
	fn blake2_256(&self) -> [u8; 32] {
		self.using_encoded(blake2_256)
	}
	fn twox_128(&self) -> [u8; 16] {
		self.using_encoded(twox_128)
	}
	fn twox_64_concat(&self) -> Vec<u8> {
		self.using_encoded(Twox64Concat::hash)
	}
}
pub trait StorageHasher: 'static {
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
macro_rules! plain { ($($n:ident $f:ident $l:expr;)*) => { $(
	pub struct $n;
	impl StorageHasher for $n { type Output = [u8; $l]; fn hash(x: &[u8]) -> [u8; $l] { $f(x) } }
)* } }
plain!(Blake2_128 blake2_128 16; Blake2_256 blake2_256 32; Twox128 twox_128 16; Twox256 twox_256 32;);
macro_rules! concat { ($($n:ident $f:ident $l:expr;)*) => { $(
	pub struct $n;
	impl StorageHasher for $n { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { $f(x).iter().chain(x.iter()).cloned().collect() } }
	impl ReversibleStorageHasher for $n { fn reverse(x: &[u8]) -> &[u8] { if x.len() < $l { &[] } else { &x[$l..] } } }
)* } }
concat!(Blake2_128Concat blake2_128 16; Twox64Concat twox_64 8;);
pub struct Identity;
impl StorageHasher for Identity {
	type Output = Vec<u8>;
	fn hash(x: &[u8]) -> Vec<u8> {
		x.to_vec()
	}
}
impl ReversibleStorageHasher for Identity {
	fn reverse(x: &[u8]) -> &[u8] {
		x
	}
}
