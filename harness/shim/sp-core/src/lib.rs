//! Stand-in for sp-core (and bounded-collections, sp-storage).
pub mod bounded;
pub mod crypto_impl {
	pub use crate::crypto_types::*;
}
#[path = "crypto.rs"]
mod crypto_types;
pub mod externalities;
pub mod get;
pub mod hashing;

pub use bounded::{BoundedVec, WeakBoundedVec};
pub use codec::{Decode, Encode, MaxEncodedLen};
pub use crypto_types::{OpaqueMetadata, H160, H256};
pub use get::*;
pub use hashing::{blake2_128, blake2_256, twox_128, twox_64};

pub mod crypto {
	pub use crate::crypto_types::{AccountId32, KeyTypeId};
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
}
pub mod storage {
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct Storage {
		pub top: crate::externalities::Map,
	}
}
pub use storage::Storage;

pub type RuntimeDebugBytes = Vec<u8>;

pub trait Hasher {
	type Out: Clone + core::fmt::Debug + PartialEq + Eq;
	const LENGTH: usize;
	fn hash(x: &[u8]) -> Self::Out;
}

/// Zero-sized marker used as a uninhabited type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
pub enum Void {}

#[macro_export]
macro_rules! parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )*
		$vis struct $name $( < $($ty_params),* >( $(::core::marker::PhantomData<$ty_params>),* ) )?;
		$crate::parameter_types!(IMPL_CONST $name , $type , $value $( $(, $ty_params)* )?);
		$crate::parameter_types!( $( $rest )* );
	};
	( $( #[ $attr:meta ] )* $vis:vis $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )*
		$vis struct $name $( < $($ty_params),* >( $(::core::marker::PhantomData<$ty_params>),* ) )?;
		$crate::parameter_types!(IMPL $name, $type, $value $( $(, $ty_params)* )?);
		$crate::parameter_types!( $( $rest )* );
	};
	( $( #[ $attr:meta ] )* $vis:vis storage $name:ident : $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )*
		$vis struct $name;
		impl $name {
			pub fn get() -> $type { $value }
		}
		impl<I: From<$type>> $crate::Get<I> for $name { fn get() -> I { I::from($value) } }
		$crate::parameter_types!( $( $rest )* );
	};
	( $( #[ $attr:meta ] )* $vis:vis static $name:ident : $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )*
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		$vis struct $name;
		const _: () = {
			::std::thread_local! { static CELL: ::std::cell::RefCell<$type> = ::std::cell::RefCell::new($value); }
			impl $name {
				pub fn get() -> $type { CELL.with(|v| v.borrow().clone()) }
				pub fn set(t: $type) { CELL.with(|v| *v.borrow_mut() = t) }
				pub fn mutate<R, F: FnOnce(&mut $type) -> R>(f: F) -> R { CELL.with(|v| f(&mut v.borrow_mut())) }
				pub fn take() -> $type where $type: Default { CELL.with(|v| ::core::mem::take(&mut *v.borrow_mut())) }
			}
			impl<I: From<$type>> $crate::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
		};
		$crate::parameter_types!( $( $rest )* );
	};
	() => {};
	(IMPL_CONST $name:ident, $type:ty, $value:expr $(, $ty_params:ident)*) => {
		impl< $($ty_params),* > $name< $($ty_params),* > {
			pub const fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $ty_params)*> $crate::Get<_I> for $name< $($ty_params),* > {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl< $($ty_params),* > $crate::TypedGet for $name< $($ty_params),* > {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
	};
	(IMPL $name:ident, $type:ty, $value:expr $(, $ty_params:ident)*) => {
		impl< $($ty_params),* > $name< $($ty_params),* > {
			pub fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $ty_params)*> $crate::Get<_I> for $name< $($ty_params),* > {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl< $($ty_params),* > $crate::TypedGet for $name< $($ty_params),* > {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
	};
}
