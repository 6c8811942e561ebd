//! Fixed-point numbers.
use crate::per_things::PerThing;
use crate::traits::*;
use codec::{Decode, Encode, MaxEncodedLen};

pub trait FixedPointNumber: Sized + Copy + Ord {
	type Inner: Copy;
	const DIV: Self::Inner;
	fn from_inner(i: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
}

macro_rules! fixed {
	($n:ident, $t:ty, $div:expr) => {
		#[derive(
			Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, scale_info::TypeInfo, MaxEncodedLen, Debug,
			Default, serde::Serialize, serde::Deserialize,
		)]
		pub struct $n($t);
		impl FixedPointNumber for $n {
			type Inner = $t;
			const DIV: $t = $div;
			fn from_inner(i: $t) -> Self {
				Self(i)
			}
			fn into_inner(self) -> $t {
				self.0
			}
		}
		impl $n {
			pub const DIV: $t = $div;
			pub const fn from_inner(i: $t) -> Self {
				Self(i)
			}
			pub const fn into_inner(self) -> $t {
				self.0
			}
			pub fn saturating_from_integer<N: num_traits::ToPrimitive>(n: N) -> Self {
				Self(n.to_u128().map_or(<$t>::MAX as u128, |n| n.saturating_mul($div as u128)).min(<$t>::MAX as u128) as $t)
			}
			pub const fn from_u32(n: u32) -> Self {
				Self((n as $t) * $div)
			}
			pub const fn zero() -> Self {
				Self(0)
			}
			pub const fn one() -> Self {
				Self($div)
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			/// Rounds to nearest, halves down.
			pub const fn from_rational(a: u128, b: u128) -> Self {
				let n = a * ($div as u128);
				let q = n / b;
				let m = n % b;
				Self((q + (m > b / 2) as u128) as $t)
			}
			/// Rounds down.
			pub fn saturating_from_rational(a: u128, b: u128) -> Self {
				let whole = (a / b).saturating_mul($div as u128);
				let part = (a % b).saturating_mul($div as u128) / b;
				Self(<$t>::try_from(whole.saturating_add(part)).unwrap_or(<$t>::MAX))
			}
			pub const fn saturating_add(self, o: Self) -> Self {
				Self(self.0.saturating_add(o.0))
			}
			pub const fn saturating_sub(self, o: Self) -> Self {
				Self(self.0.saturating_sub(o.0))
			}
			pub const fn add(self, o: Self) -> Self {
				Self(self.0 + o.0)
			}
			pub const fn sub(self, o: Self) -> Self {
				Self(self.0 - o.0)
			}
			pub fn saturating_mul(self, o: Self) -> Self {
				Self((self.0 as i128 * o.0 as i128 / $div as i128) as $t)
			}
			pub fn checked_div(self, o: Self) -> Option<Self> {
				if o.0 == 0 {
					return None;
				}
				<$t>::try_from(self.0 as i128 * $div as i128 / o.0 as i128).ok().map(Self)
			}
			pub const fn checked_rounding_div(self, o: Self, up: bool) -> Option<Self> {
				if o.0 == 0 {
					return None;
				}
				let n = self.0 as i128 * $div as i128;
				let d = o.0 as i128;
				let q = n.div_euclid(d);
				let r = n.rem_euclid(d);
				Some(Self((q + (up && r != 0) as i128) as $t))
			}
			pub fn saturating_mul_int(self, i: u128) -> u128 {
				let s = (self.0 as i128).max(0) as u128;
				(i / $div as u128).saturating_mul(s).saturating_add((i % $div as u128).saturating_mul(s) / $div as u128)
			}
			pub fn into_clamped_perthing<P: PerThing>(self) -> P {
				if self.0 <= 0 {
					return P::zero();
				}
				P::from_rational(self.0 as u128, $div as u128)
			}
			pub fn into_perbill(self) -> crate::Perbill {
				self.into_clamped_perthing()
			}
		}
		impl<P: PerThing> From<P> for $n {
			fn from(p: P) -> Self {
				let a: u128 = P::ACCURACY.into();
				Self::from_rational(p.deconstruct().into(), a)
			}
		}
		impl std::ops::Add for $n {
			type Output = Self;
			fn add(self, o: Self) -> Self {
				Self(self.0 + o.0)
			}
		}
		impl std::ops::Sub for $n {
			type Output = Self;
			fn sub(self, o: Self) -> Self {
				Self(self.0 - o.0)
			}
		}
	};
}
fixed!(FixedI64, i64, 1_000_000_000);
fixed!(FixedU128, u128, 1_000_000_000_000_000_000);
impl One for FixedU128 {
	fn one() -> Self {
		FixedU128::one()
	}
}
impl std::ops::Mul for FixedU128 {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		self.saturating_mul(o)
	}
}
