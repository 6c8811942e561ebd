//! Stand-in for sp-arithmetic.
pub mod fixed;
pub mod per_things;
pub mod traits;

pub use fixed::{FixedI64, FixedPointNumber, FixedU128};
pub use per_things::{
	InnerOf, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rounding, SignedRounding, UpperOf,
};

use codec::{Decode, Encode, MaxEncodedLen};

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, scale_info::TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> Self {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}
