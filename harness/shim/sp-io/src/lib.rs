//! Stand-in for sp-io.
use sp_core::externalities;

pub mod hashing {
	pub use sp_core::hashing::{blake2_128, blake2_256, twox_128, twox_256, twox_64};
}

pub mod storage {
	use sp_core::externalities;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		externalities::get(k)
	}
	pub fn set(k: &[u8], v: &[u8]) {
		externalities::set(k, v.to_vec())
	}
	pub fn clear(k: &[u8]) {
		externalities::clear(k)
	}
	pub fn exists(k: &[u8]) -> bool {
		externalities::exists(k)
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		externalities::next_key(k)
	}
	pub fn start_transaction() {
		externalities::start_transaction()
	}
	pub fn commit_transaction() {
		externalities::commit_transaction()
	}
	pub fn rollback_transaction() {
		externalities::rollback_transaction()
	}
}

/// Storage to run test closures on.
#[derive(Default, Clone)]
pub struct TestExternalities {
	top: externalities::Map,
}
impl TestExternalities {
	pub fn new(s: sp_core::Storage) -> Self {
		Self { top: s.top }
	}
	pub fn register_extension<E>(&mut self, _: E) {}
	pub fn new_empty() -> Self {
		Self::default()
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let mut m = std::mem::take(&mut self.top);
		externalities::swap(&mut m);
		let r = f();
		externalities::swap(&mut m);
		self.top = m;
		r
	}
}
impl From<sp_core::Storage> for TestExternalities {
	fn from(s: sp_core::Storage) -> Self {
		Self::new(s)
	}
}
