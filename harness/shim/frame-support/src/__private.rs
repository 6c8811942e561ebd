//! What the macros refer to.
pub use codec;
pub use scale_info;
pub use core::marker::PhantomData;
use codec::{Decode, Encode, EncodeLike, Input, MaxEncodedLen, Output};
use scale_info::{Path, Type, TypeInfo};

pub fn opaque_type_info(name: &'static str, module: &'static str) -> Type {
	Type::builder().path(Path::new(name, module)).composite(scale_info::build::Fields::unit())
}

/// A type alias cannot ignore its parameters; a projection can.
/// (`T`, the runtime, is a parameter of its own so that coherence can tell no other crate implements this.)
pub trait Same<T, I> {
	type Out: ?Sized;
}
impl<X: ?Sized, T, I> Same<T, I> for X {
	type Out = X;
}

/// What a pallet does not declare (no event, origin, reason...): a type without values.
pub struct Absent<M, I>(crate::Never, PhantomData<fn() -> (M, I)>);
impl<M, I> Clone for Absent<M, I> {
	fn clone(&self) -> Self {
		*self
	}
}
impl<M, I> Copy for Absent<M, I> {}
impl<M, I> PartialEq for Absent<M, I> {
	fn eq(&self, _: &Self) -> bool {
		match self.0 {}
	}
}
impl<M, I> Eq for Absent<M, I> {}
impl<M, I> core::fmt::Debug for Absent<M, I> {
	fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		match self.0 {}
	}
}
impl<M, I> Encode for Absent<M, I> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {
		match self.0 {}
	}
}
impl<M, I> EncodeLike for Absent<M, I> {}
impl<M, I> Decode for Absent<M, I> {
	fn decode<D: Input>(_: &mut D) -> Result<Self, codec::Error> {
		Err("no such variant".into())
	}
}
impl<M, I> MaxEncodedLen for Absent<M, I> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl<M: 'static, I: 'static> TypeInfo for Absent<M, I> {
	type Identity = Self;
	fn type_info() -> Type {
		opaque_type_info("Absent", "frame_support")
	}
}
impl<M, I> crate::traits::VariantCount for Absent<M, I> {
	const VARIANT_COUNT: u32 = 0;
}

pub struct NoGenesis<M>(PhantomData<M>);
impl<M> Default for NoGenesis<M> {
	fn default() -> Self {
		Self(PhantomData)
	}
}
impl<M> sp_runtime::BuildStorage for NoGenesis<M> {
	fn assimilate_storage(&self, _: &mut sp_runtime::Storage) -> Result<(), String> {
		Ok(())
	}
}
