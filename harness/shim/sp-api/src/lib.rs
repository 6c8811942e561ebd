//! Stand-in for sp-api: the interface to the node is left out.
#[macro_export]
macro_rules! impl_runtime_apis {
	($($t:tt)*) => {
		pub struct RuntimeApi;
		pub const RUNTIME_API_VERSIONS: ::sp_version::ApisVec = &[];
	};
}
