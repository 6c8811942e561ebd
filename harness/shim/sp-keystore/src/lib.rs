//! Stand-in for sp-keystore: nothing is kept.
pub mod testing {
	#[derive(Default)]
	pub struct MemoryKeystore;
	impl MemoryKeystore {
		pub fn new() -> Self {
			Self
		}
	}
}
pub struct KeystoreExt;
impl KeystoreExt {
	pub fn new<T>(_: T) -> Self {
		Self
	}
}
