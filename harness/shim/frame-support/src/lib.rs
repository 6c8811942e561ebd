//! Stand-in for frame-support: the traits, storage types and macros the verified pallets use.
extern crate self as frame_support;

pub mod dispatch;
pub mod hash;
pub mod instances;
pub mod storage;
pub mod traits;
#[doc(hidden)]
pub mod __private;

pub use hash::{
	Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, StorageHasher, Twox128, Twox256, Twox64Concat,
};
pub use frame_support_procedural::{
	derive_impl, pallet, require_transactional, runtime, transactional, CloneNoBound, DebugNoBound, DefaultNoBound,
	EqNoBound, PalletError, PartialEqNoBound, RuntimeDebugNoBound,
};
pub use dispatch::Parameter;
pub use log;
pub use sp_core::Void;
pub use sp_core;
pub use sp_io;
pub use sp_runtime;
pub use sp_runtime::{bounded_vec, print, BoundedVec, RuntimeDebug, WeakBoundedVec, StateVersion};
pub use sp_runtime::sp_arithmetic;
pub use storage::types::StorageEntryMetadataBuilder;
pub use storage::{types::StorageValue, StorageDoubleMap, StorageMap, StoragePrefixedMap};
pub mod weights {
	pub use sp_weights::*;
	pub use crate::dispatch::{DispatchClass, Pays};
}
pub mod error {
	pub use sp_runtime::traits::{BadOrigin, LookupError};
}
pub mod migrations {
	pub trait FailedMigrationHandler {}
	pub trait MultiStepMigrator {
		fn ongoing() -> bool { false }
	}
	impl MultiStepMigrator for () {}
	pub struct FreezeChainOnFailedMigration;
	pub struct VersionedMigration<const F: u16, const T: u16, I, P, W>(core::marker::PhantomData<(I, P, W)>);
	impl<const F: u16, const T: u16, I, P, W> crate::traits::OnRuntimeUpgrade for VersionedMigration<F, T, I, P, W> {}
	pub trait SteppedMigration {}
}
pub mod genesis_builder_helper {
	/// Genesis states and presets are made elsewhere; nothing here builds from text.
	pub fn build_state<G>(_: Vec<u8>) -> Result<(), String> {
		Err("not modelled".into())
	}
	pub fn get_preset<G>(_: &Option<String>, _: impl FnOnce(&str) -> Option<Vec<u8>>) -> Option<Vec<u8>> {
		None
	}
}

#[derive(Debug, PartialEq, Eq, Clone, Copy, codec::Encode, codec::Decode)]
pub enum Never {}

/// A pallet identifier.
#[derive(Clone, Copy, Eq, PartialEq, Debug, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}

#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! defensive {
	($($t:tt)*) => {};
}
#[macro_export]
macro_rules! defensive_assert {
	($cond:expr $(, $proof:expr )? $(,)?) => {
		let _ = $cond;
	};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_). Got {:#?}", is),
		}
	};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y));
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	($x:expr, $y:expr $(,)?) => {
		$crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y);
	};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr, $y:expr $(,)?) => {
		let h = $crate::sp_core::externalities::snapshot();
		$crate::assert_err!($x, $y);
		assert!(h == $crate::sp_core::externalities::snapshot(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_storage_noop {
	($x:expr) => {
		let h = $crate::sp_core::externalities::snapshot();
		$x;
		assert!(h == $crate::sp_core::externalities::snapshot(), "storage has been mutated");
	};
}

pub use sp_core::parameter_types;
#[macro_export]
macro_rules! ord_parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$crate::parameter_types! { $( #[ $attr ] )* $vis const $name: $type = $value; }
		impl $crate::traits::SortedMembers<$type> for $name {
			fn contains(t: &$type) -> bool { &$value == t }
			fn sorted_members() -> Vec<$type> { vec![$value] }
		}
		$crate::ord_parameter_types!( $( $rest )* );
	};
	() => {};
}

pub mod pallet_prelude {
	pub use crate::{
		defensive,
		dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays},
		ensure,
		hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, Twox128, Twox256, Twox64Concat},
		storage::types::{
			CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue,
			ValueQuery,
		},
		traits::{
			BuildGenesisConfig, ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32,
			ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, OriginTrait, PalletInfoAccess,
			StorageInstance, StorageVersion, Task, TypedGet,
		},
		weights::Weight,
		Never, PalletId, CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound, DefaultNoBound,
	};
	pub use codec::{Decode, Encode, MaxEncodedLen};
	pub use frame_support_procedural::pallet_section;
	pub use scale_info::TypeInfo;
	pub use core::marker::PhantomData;
	pub use sp_runtime::{
		traits::{Dispatchable, Hash as _, Member, MaybeSerializeDeserialize, ValidateUnsigned},
		transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, ValidTransaction},
		BoundedVec, DispatchError, Permill, RuntimeString, SaturatedConversion, WeakBoundedVec,
	};
	pub use sp_std::marker::PhantomData as _PhantomDataAlias;
}
