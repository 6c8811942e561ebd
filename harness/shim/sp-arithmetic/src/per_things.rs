//! Fixed-denominator fractions.
use crate::traits::*;
use codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use std::ops::{Add, AddAssign, Div, Mul, Sub};

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum SignedRounding {
	High,
	Low,
	NearestPrefHigh,
	NearestPrefLow,
	Major,
	Minor,
	NearestPrefMajor,
	NearestPrefMinor,
}
pub type InnerOf<P> = <P as PerThing>::Inner;
pub type UpperOf<P> = <P as PerThing>::Upper;

pub trait RationalArg: Clone + Ord + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128> {}
impl<T: Clone + Ord + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>> RationalArg for T {}
pub trait MultiplyArg: RationalArg {}
impl<T: RationalArg> MultiplyArg for T {}

fn round_div(n: u128, d: u128, r: Rounding) -> u128 {
	let q = n / d;
	let m = n % d;
	let up = match r {
		Rounding::Up => m > 0,
		Rounding::Down => false,
		Rounding::NearestPrefUp => m >= d / 2 + d % 2,
		Rounding::NearestPrefDown => m > d / 2,
	};
	q + up as u128
}

pub trait PerThing:
	Sized + Copy + Saturating + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + std::fmt::Debug + Send + Sync
{
	type Inner: BaseArithmetic + Unsigned + Copy + Into<u128> + std::fmt::Debug;
	type Upper: BaseArithmetic + Copy;
	const ACCURACY: Self::Inner;

	fn zero() -> Self {
		Self::from_parts(Self::Inner::zero())
	}
	fn is_zero(&self) -> bool {
		self.deconstruct() == Self::Inner::zero()
	}
	fn one() -> Self {
		Self::from_parts(Self::ACCURACY)
	}
	fn is_one(&self) -> bool {
		self.deconstruct() == Self::ACCURACY
	}
	fn less_epsilon(self) -> Self {
		if self.is_zero() {
			return self;
		}
		Self::from_parts(self.deconstruct() - One::one())
	}
	fn plus_epsilon(self) -> Self {
		if self.is_one() {
			return self;
		}
		Self::from_parts(self.deconstruct() + One::one())
	}
	fn from_percent(x: Self::Inner) -> Self {
		let a = x.into().min(100);
		Self::from_rational(a, 100u128)
	}
	fn square(self) -> Self {
		let p: u128 = self.deconstruct().into();
		let q: u128 = Self::ACCURACY.into();
		Self::from_parts((p * p / q).unique_saturated_into())
	}
	fn left_from_one(self) -> Self {
		Self::from_parts(Self::ACCURACY - self.deconstruct())
	}
	fn mul_with<N: MultiplyArg>(self, b: N, r: Rounding) -> N {
		let x: u128 = b.unique_saturated_into();
		let p: u128 = self.deconstruct().into();
		let acc: u128 = Self::ACCURACY.into();
		let whole = (x / acc) * p;
		N::unique_saturated_from(whole + round_div((x % acc) * p, acc, r))
	}
	fn mul_floor<N: MultiplyArg>(self, b: N) -> N {
		self.mul_with(b, Rounding::Down)
	}
	fn mul_ceil<N: MultiplyArg>(self, b: N) -> N {
		self.mul_with(b, Rounding::Up)
	}
	fn saturating_reciprocal_mul_with<N: MultiplyArg>(self, b: N, r: Rounding) -> N {
		let x: u128 = b.unique_saturated_into();
		let p: u128 = self.deconstruct().into();
		let acc: u128 = Self::ACCURACY.into();
		if p == 0 {
			return N::unique_saturated_from(u128::MAX);
		}
		let whole = (x / p).saturating_mul(acc);
		N::unique_saturated_from(whole.saturating_add(round_div((x % p) * acc, p, r)))
	}
	fn saturating_reciprocal_mul<N: MultiplyArg>(self, b: N) -> N {
		self.saturating_reciprocal_mul_with(b, Rounding::NearestPrefUp)
	}
	fn saturating_reciprocal_mul_floor<N: MultiplyArg>(self, b: N) -> N {
		self.saturating_reciprocal_mul_with(b, Rounding::Down)
	}
	fn saturating_reciprocal_mul_ceil<N: MultiplyArg>(self, b: N) -> N {
		self.saturating_reciprocal_mul_with(b, Rounding::Up)
	}
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn from_rational<N: RationalArg>(p: N, q: N) -> Self {
		Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| Self::one())
	}
	fn from_rational_with_rounding<N: RationalArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
		let p: u128 = p.unique_saturated_into();
		let q: u128 = q.unique_saturated_into();
		let max: u128 = Self::ACCURACY.into();
		if q == 0 || p > q {
			return Err(());
		}
		let factor = round_div(q, max, Rounding::Up).max(1);
		let q_red = round_div(q, factor, r);
		let p_red = round_div(p, factor, r);
		Ok(Self::from_parts(round_div(p_red * max, q_red, r).unique_saturated_into()))
	}
	fn from_rational_approximation<N: RationalArg>(p: N, q: N) -> Self {
		Self::from_rational(p, q)
	}
	fn from_float(x: f64) -> Self {
		let acc: u128 = Self::ACCURACY.into();
		Self::from_parts(((x.max(0.).min(1.) * acc as f64) as u128).unique_saturated_into())
	}
}

macro_rules! per {
	($n:ident, $t:ty, $u:ty, $acc:expr) => {
		#[derive(
			Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, scale_info::TypeInfo, MaxEncodedLen,
			serde::Serialize, serde::Deserialize, Default, Hash,
		)]
		pub struct $n($t);
		impl CompactAs for $n {
			type As = $t;
			fn encode_as(&self) -> &$t {
				&self.0
			}
			fn decode_from(x: $t) -> Result<Self, codec::Error> {
				Ok(Self::from_parts(x))
			}
		}
		impl From<codec::Compact<$n>> for $n {
			fn from(x: codec::Compact<$n>) -> $n {
				x.0
			}
		}
		impl PerThing for $n {
			type Inner = $t;
			type Upper = $u;
			const ACCURACY: $t = $acc;
			fn deconstruct(self) -> $t {
				self.0
			}
			fn from_parts(parts: $t) -> Self {
				Self(parts.min($acc))
			}
		}
		impl $n {
			pub const fn from_parts(parts: $t) -> Self {
				Self([parts, $acc][(parts > $acc) as usize])
			}
			pub const fn from_percent(x: $t) -> Self {
				Self(([x, 100][(x > 100) as usize] as u128 * <Self as PerThing>::ACCURACY as u128 / 100u128) as $t)
			}
			pub const fn from_perthousand(x: $t) -> Self {
				Self(([x as u128, 1000][(x as u128 > 1000) as usize] * <Self as PerThing>::ACCURACY as u128 / 1000u128) as $t)
			}
			pub const fn one() -> Self {
				Self($acc)
			}
			pub const fn zero() -> Self {
				Self(0)
			}
			pub const fn is_one(&self) -> bool {
				self.0 == $acc
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub const fn deconstruct(self) -> $t {
				self.0
			}
			pub const fn left_from_one(self) -> Self {
				Self($acc - self.0)
			}
			pub fn square(self) -> Self {
				PerThing::square(self)
			}
			pub fn from_rational<N: RationalArg>(p: N, q: N) -> Self {
				<Self as PerThing>::from_rational(p, q)
			}
			pub fn from_float(x: f64) -> Self {
				<Self as PerThing>::from_float(x)
			}
			pub fn mul_floor<N: MultiplyArg>(self, b: N) -> N {
				PerThing::mul_floor(self, b)
			}
			pub fn mul_ceil<N: MultiplyArg>(self, b: N) -> N {
				PerThing::mul_ceil(self, b)
			}
			pub fn saturating_reciprocal_mul<N: MultiplyArg>(self, b: N) -> N {
				PerThing::saturating_reciprocal_mul(self, b)
			}
			pub fn int_div(self, b: Self) -> $t {
				self.0 / b.0
			}
		}
		impl Saturating for $n {
			fn saturating_add(self, rhs: Self) -> Self {
				Self::from_parts(self.0.saturating_add(rhs.0))
			}
			fn saturating_sub(self, rhs: Self) -> Self {
				Self(self.0.saturating_sub(rhs.0))
			}
			fn saturating_mul(self, rhs: Self) -> Self {
				self * rhs
			}
			fn saturating_pow(self, exp: usize) -> Self {
				(0..exp).fold(Self::one(), |a, _| a * self)
			}
		}
		impl std::fmt::Debug for $n {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				write!(f, "{}/{}", self.0, <Self as PerThing>::ACCURACY)
			}
		}
		impl Bounded for $n {
			fn min_value() -> Self {
				Self(0)
			}
			fn max_value() -> Self {
				Self($acc)
			}
		}
		impl Mul for $n {
			type Output = Self;
			fn mul(self, rhs: Self) -> Self {
				Self((self.0 as u128 * rhs.0 as u128 / <Self as PerThing>::ACCURACY as u128) as $t)
			}
		}
		impl Div for $n {
			type Output = Self;
			fn div(self, rhs: Self) -> Self {
				<Self as PerThing>::from_rational(self.0, rhs.0)
			}
		}
		impl Add for $n {
			type Output = Self;
			fn add(self, rhs: Self) -> Self {
				Self::from_parts(self.0.saturating_add(rhs.0))
			}
		}
		impl AddAssign for $n {
			fn add_assign(&mut self, rhs: Self) {
				*self = *self + rhs
			}
		}
		impl Sub for $n {
			type Output = Self;
			fn sub(self, rhs: Self) -> Self {
				Self(self.0 - rhs.0)
			}
		}
		per!(@mul $n, u8, u16, u32, u64, u128, usize);
	};
	(@mul $n:ident, $($i:ty),*) => { $(
		impl Mul<$i> for $n {
			type Output = $i;
			fn mul(self, b: $i) -> $i {
				self.mul_with(b as u128, Rounding::NearestPrefDown) as $i
			}
		}
	)* };
}
per!(Percent, u8, u16, 100);
per!(PerU16, u16, u32, 65535);
per!(Permill, u32, u64, 1_000_000);
per!(Perbill, u32, u64, 1_000_000_000);
per!(Perquintill, u64, u128, 1_000_000_000_000_000_000);
