//! `Get` and constant types.
pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}

macro_rules! consts {
	($($n:ident $t:ty),* $(,)?) => { $(
		#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
		pub struct $n<const T: $t>;
		impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
		impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
		impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
	)* };
}
consts!(
	ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128,
	ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128,
);

#[derive(Clone, Copy, Debug, Default)]
pub struct ConstUint<const N: u128>;
#[derive(Clone, Copy, Debug, Default)]
pub struct ConstInt<const N: i128>;
macro_rules! uints { ($($t:ty),*) => { $( impl<const N: u128> Get<$t> for ConstUint<N> { fn get() -> $t { N as $t } } )* } }
uints!(u8, u16, u32, u64, u128);
macro_rules! ints { ($($t:ty),*) => { $( impl<const N: i128> Get<$t> for ConstInt<N> { fn get() -> $t { N as $t } } )* } }
ints!(i8, i16, i32, i64, i128);
