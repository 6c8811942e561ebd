//! Transaction validity types.
use codec::{Decode, Encode};
use scale_info::TypeInfo;

#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum InvalidTransaction {
	Call,
	Payment,
	Future,
	Stale,
	BadProof,
	AncientBirthBlock,
	ExhaustsResources,
	Custom(u8),
	BadMandatory,
	MandatoryValidation,
	BadSigner,
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum UnknownTransaction {
	CannotLookup,
	NoUnsignedValidator,
	Custom(u8),
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum TransactionValidityError {
	Invalid(InvalidTransaction),
	Unknown(UnknownTransaction),
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum TransactionSource {
	InBlock,
	Local,
	External,
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo, Default)]
pub struct ValidTransaction {
	pub priority: u64,
	pub requires: Vec<Vec<u8>>,
	pub provides: Vec<Vec<u8>>,
	pub longevity: u64,
	pub propagate: bool,
}
pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
impl From<InvalidTransaction> for TransactionValidityError {
	fn from(e: InvalidTransaction) -> Self {
		Self::Invalid(e)
	}
}
impl From<UnknownTransaction> for TransactionValidityError {
	fn from(e: UnknownTransaction) -> Self {
		Self::Unknown(e)
	}
}
