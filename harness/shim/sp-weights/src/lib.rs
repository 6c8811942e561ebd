//! Stand-in for sp-weights.
use codec::{Decode, Encode, MaxEncodedLen};
use smallvec::SmallVec;
use sp_arithmetic::{
	traits::{SaturatedConversion, Saturating, Zero},
	Perbill,
};
use sp_core::Get;
use std::ops::{Add, AddAssign, Div, Mul, Sub};

pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	pub struct RocksDbWeight;
	impl Get<RuntimeDbWeight> for RocksDbWeight {
		fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
		}
	}
	pub struct ParityDbWeight;
	impl Get<RuntimeDbWeight> for ParityDbWeight {
		fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 8_000_000, write: 50_000_000 }
		}
	}
	pub struct ExtrinsicBaseWeight;
	impl ExtrinsicBaseWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(125_000 * WEIGHT_REF_TIME_PER_NANOS, 0)
		}
	}
	impl<I: From<Weight>> Get<I> for ExtrinsicBaseWeight {
		fn get() -> I {
			Self::get().into()
		}
	}
	pub struct BlockExecutionWeight;
	impl BlockExecutionWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(5_000_000 * WEIGHT_REF_TIME_PER_NANOS, 0)
		}
	}
	impl<I: From<Weight>> Get<I> for BlockExecutionWeight {
		fn get() -> I {
			Self::get().into()
		}
	}
}

#[derive(Encode, Decode, MaxEncodedLen, scale_info::TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
impl Weight {
	pub const MAX: Self = Self { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub const fn div(self, s: u64) -> Self {
		self.saturating_div(s)
	}
	pub const fn mul(self, s: u64) -> Self {
		self.saturating_mul(s)
	}
	pub const fn add_ref_time(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_add(s), ..self }
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	pub fn max(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub fn min(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub fn any_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time || self.proof_size <= o.proof_size
	}
	pub fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub fn any_eq(self, o: Self) -> bool {
		self.ref_time == o.ref_time || self.proof_size == o.proof_size
	}
	pub fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
	}
	pub fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
}
impl From<u64> for Weight {
	fn from(v: u64) -> Self {
		Self::from_parts(v, 0)
	}
}
impl Zero for Weight {
	fn zero() -> Self {
		Self::zero()
	}
	fn is_zero(&self) -> bool {
		self == &Self::zero()
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		self.saturating_add(o)
	}
}
impl std::ops::SubAssign for Weight {
	fn sub_assign(&mut self, o: Self) {
		*self = *self - o
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		self.saturating_sub(o)
	}
}
impl Mul<u64> for Weight {
	type Output = Self;
	fn mul(self, o: u64) -> Self {
		self.saturating_mul(o)
	}
}
impl Div<u64> for Weight {
	type Output = Self;
	fn div(self, o: u64) -> Self {
		self.saturating_div(o)
	}
}
impl std::fmt::Display for Weight {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}
impl Mul<Perbill> for Weight {
	type Output = Weight;
	fn mul(self, o: Perbill) -> Weight {
		o * self
	}
}
impl Mul<Weight> for Perbill {
	type Output = Weight;
	fn mul(self, o: Weight) -> Weight {
		Weight::from_parts(self * o.ref_time, self * o.proof_size)
	}
}

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, scale_info::TypeInfo)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub fn reads_writes(self, r: u64, w: u64) -> Weight {
		self.reads(r).saturating_add(self.writes(w))
	}
}

#[derive(Debug, Eq, PartialEq, Clone, Copy, Encode, Decode, scale_info::TypeInfo)]
pub struct WeightToFeeCoefficient<Balance> {
	pub coeff_integer: Balance,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
pub type WeightToFeeCoefficients<T> = SmallVec<[WeightToFeeCoefficient<T>; 4]>;
pub struct FeePolynomial<Balance> {
	c: SmallVec<[WeightToFeeCoefficient<Balance>; 4]>,
}
impl<B> From<WeightToFeeCoefficients<B>> for FeePolynomial<B> {
	fn from(c: WeightToFeeCoefficients<B>) -> Self {
		Self { c }
	}
}
impl FeePolynomial<u128> {
	pub fn eval(&self, x: u64) -> u128 {
		self.c.iter().fold(0u128, |mut acc, t| {
			let w = (x as u128).saturating_pow(t.degree.into());
			let frac = t.coeff_frac * w;
			let integer = t.coeff_integer.saturating_mul(w);
			if t.negative {
				acc = acc.saturating_sub(frac).saturating_sub(integer)
			} else {
				acc = acc.saturating_add(frac).saturating_add(integer)
			}
			acc
		})
	}
}
pub trait WeightToFee {
	type Balance;
	fn weight_to_fee(weight: &Weight) -> Self::Balance;
}
pub trait WeightToFeePolynomial {
	type Balance;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: sp_arithmetic::traits::BaseArithmetic> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(weight: &Weight) -> T {
		weight.ref_time().saturated_into()
	}
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: sp_arithmetic::traits::BaseArithmetic, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(weight: &Weight) -> T {
		let w: T = weight.ref_time().saturated_into();
		Saturating::saturating_mul(w, M::get())
	}
}
