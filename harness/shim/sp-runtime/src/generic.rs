//! Generic block types.
use crate::traits::{self, BlakeTwo256};
use codec::{Decode, Encode};
use scale_info::TypeInfo;
use std::marker::PhantomData;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(Number, Hash))]
pub struct Header<Number, Hash = BlakeTwo256> {
	pub number: Number,
	#[codec(skip)]
	_p: PhantomData<Hash>,
}
impl<N: traits::BlockNumber, H: traits::Hash + Send + Sync> traits::Header for Header<N, H> {
	type Number = N;
	type Hash = <H as traits::Hash>::Output;
	type Hashing = H;
}
#[derive(Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(Header, Extrinsic))]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub struct Block<Header, Extrinsic> {
	#[codec(skip)]
	_p: PhantomData<fn() -> (Header, Extrinsic)>,
}
impl<H, E> std::fmt::Debug for Block<H, E> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str("Block")
	}
}
impl<H, E> Clone for Block<H, E> {
	fn clone(&self) -> Self {
		Self { _p: PhantomData }
	}
}
impl<H, E> PartialEq for Block<H, E> {
	fn eq(&self, _: &Self) -> bool {
		true
	}
}
impl<H, E> Eq for Block<H, E> {}
impl<H: traits::Header + std::fmt::Debug, E: 'static + std::fmt::Debug> traits::Block for Block<H, E> {
	type Extrinsic = E;
	type Header = H;
	type Hash = H::Hash;
}
pub struct SignedBlock<B>(PhantomData<B>);
pub struct BlockId<B>(PhantomData<B>);
#[derive(Encode, Decode)]
pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
	pub signature: Option<(Address, Signature, Extra)>,
	pub function: Call,
}
impl<A, C, S, E> std::fmt::Debug for UncheckedExtrinsic<A, C, S, E> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str("UncheckedExtrinsic")
	}
}
pub struct CheckedExtrinsic<AccountId, Call, Extra>(PhantomData<(AccountId, Call, Extra)>);
pub struct SignedPayload<Call, Extra>(PhantomData<(Call, Extra)>);
/// How long a transaction lives: for `period` blocks, counted from those at `phase` in it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode)]
pub enum Era {
	#[default]
	Immortal,
	Mortal(u64, u64),
}
impl Era {
	pub fn mortal(period: u64, current: u64) -> Self {
		let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16);
		let quantize = (period >> 12).max(1);
		Era::Mortal(period, current % period / quantize * quantize)
	}
	pub fn immortal() -> Self {
		Era::Immortal
	}
	pub fn birth(self, current: u64) -> u64 {
		match self {
			Era::Immortal => 0,
			Era::Mortal(period, phase) => (current.max(phase) - phase) / period * period + phase,
		}
	}
}
