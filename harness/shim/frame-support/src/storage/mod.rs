//! Storage access.
pub mod types;
use sp_core::externalities;
use sp_runtime::DispatchError;

pub mod unhashed {
	use codec::{Decode, Encode};
	pub fn get<T: Decode>(key: &[u8]) -> Option<T> {
		sp_core::externalities::get(key).map(|v| T::decode(&mut &v[..]).expect("stored value decodes"))
	}
	pub fn put<T: Encode + ?Sized>(key: &[u8], value: &T) {
		sp_core::externalities::set(key, value.encode())
	}
	pub fn kill(key: &[u8]) {
		sp_core::externalities::clear(key)
	}
	pub fn get_raw(key: &[u8]) -> Option<Vec<u8>> {
		sp_core::externalities::get(key)
	}
	pub fn put_raw(key: &[u8], value: &[u8]) {
		sp_core::externalities::set(key, value.to_vec())
	}
	pub fn exists(key: &[u8]) -> bool {
		sp_core::externalities::exists(key)
	}
}
pub mod migration {
	pub fn clear_storage_prefix(module: &[u8], item: &[u8], hash: &[u8], limit: Option<u32>, _: Option<&[u8]>) -> u32 {
		let mut k = super::storage_prefix(module, item).to_vec();
		k.extend_from_slice(hash);
		sp_core::externalities::clear_prefix(&k, limit)
	}
}

pub fn storage_prefix(pallet: &[u8], storage: &[u8]) -> [u8; 32] {
	let mut out = [0u8; 32];
	out[..16].copy_from_slice(&sp_core::twox_128(pallet));
	out[16..].copy_from_slice(&sp_core::twox_128(storage));
	out
}

pub use sp_runtime::TransactionOutcome;

/// Rolls back on unwinding too, so that a panic leaves no open layer behind.
struct Layer(bool);
impl Layer {
	fn close(mut self, commit: bool) {
		self.0 = false;
		if commit {
			externalities::commit_transaction()
		} else {
			externalities::rollback_transaction()
		}
	}
}
impl Drop for Layer {
	fn drop(&mut self) {
		if self.0 {
			externalities::rollback_transaction()
		}
	}
}

pub fn with_storage_layer<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	externalities::start_transaction();
	let l = Layer(true);
	let r = f();
	l.close(r.is_ok());
	r
}
pub fn with_transaction<T, E: From<DispatchError>>(f: impl FnOnce() -> TransactionOutcome<Result<T, E>>) -> Result<T, E> {
	externalities::start_transaction();
	let l = Layer(true);
	match f() {
		TransactionOutcome::Commit(r) => {
			l.close(true);
			r
		}
		TransactionOutcome::Rollback(r) => {
			l.close(false);
			r
		}
	}
}
pub mod transactional {
	pub use super::with_storage_layer;
}

// Names used in trait position by some imports; the storage types have inherent functions.
pub trait StorageMap<K, V> {}
pub trait StorageDoubleMap<K1, K2, V> {}
pub trait StoragePrefixedMap<V> {}
