use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::{ConstU32, BoundedVec};
use sp_runtime::{traits::{BlakeTwo256, Hash}, DispatchError};
use std::borrow::Cow;

pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;
pub const MAX_LEGACY_LEN: u32 = 1_000_000;

#[derive(Encode, Decode, MaxEncodedLen, TypeInfo)]
#[codec(mel_bound())]
#[codec(encode_bound())]
#[codec(decode_bound())]
#[scale_info(skip_type_params(T, H))]
pub enum Bounded<T, H: Hash = BlakeTwo256> {
	Legacy { hash: H::Output, dummy: core::marker::PhantomData<T> },
	Inline(BoundedInline),
	Lookup { hash: H::Output, len: u32 },
}
impl<T, H: Hash> Clone for Bounded<T, H> {
	fn clone(&self) -> Self {
		match self {
			Self::Legacy { hash, .. } => Self::Legacy { hash: *hash, dummy: core::marker::PhantomData },
			Self::Inline(b) => Self::Inline(b.clone()),
			Self::Lookup { hash, len } => Self::Lookup { hash: *hash, len: *len },
		}
	}
}
impl<T, H: Hash> PartialEq for Bounded<T, H> {
	fn eq(&self, o: &Self) -> bool {
		self.encode() == o.encode()
	}
}
impl<T, H: Hash> Eq for Bounded<T, H> {}
impl<T, H: Hash> core::fmt::Debug for Bounded<T, H> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		write!(f, "Bounded({:?})", self.encode())
	}
}
impl<T, H: Hash> Bounded<T, H> {
	pub fn hash(&self) -> H::Output {
		match self {
			Self::Legacy { hash, .. } | Self::Lookup { hash, .. } => *hash,
			Self::Inline(x) => <H as Hash>::hash(x.as_ref()),
		}
	}
	pub fn len(&self) -> Option<u32> {
		match self {
			Self::Legacy { .. } => None,
			Self::Inline(i) => Some(i.len() as u32),
			Self::Lookup { len, .. } => Some(*len),
		}
	}
	pub fn lookup_needed(&self) -> bool {
		!matches!(self, Self::Inline(..))
	}
	pub fn lookup_len(&self) -> Option<u32> {
		match self {
			Self::Inline(..) => None,
			Self::Legacy { .. } => Some(MAX_LEGACY_LEN),
			Self::Lookup { len, .. } => Some(*len),
		}
	}
	pub fn transmute<S: Encode>(self) -> Bounded<S, H> {
		match self {
			Self::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: core::marker::PhantomData },
			Self::Inline(x) => Bounded::Inline(x),
			Self::Lookup { hash, len } => Bounded::Lookup { hash, len },
		}
	}
}
pub type FetchResult = Result<Cow<'static, [u8]>, DispatchError>;
pub trait QueryPreimage {
	type H: Hash;
	fn len(hash: &<Self::H as Hash>::Output) -> Option<u32>;
	fn fetch(hash: &<Self::H as Hash>::Output, len: Option<u32>) -> FetchResult;
	fn is_requested(hash: &<Self::H as Hash>::Output) -> bool;
	fn request(hash: &<Self::H as Hash>::Output);
	fn unrequest(hash: &<Self::H as Hash>::Output);
	fn have<T>(bounded: &Bounded<T, Self::H>) -> bool {
		match bounded {
			Bounded::Inline(_) => true,
			Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::len(hash).is_some(),
		}
	}
	fn drop<T>(bounded: &Bounded<T, Self::H>) {
		match bounded {
			Bounded::Inline(_) => {}
			Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::unrequest(hash),
		}
	}
	fn peek<T: Decode>(bounded: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		match bounded {
			Bounded::Inline(data) => T::decode(&mut &data[..]).ok().map(|x| (x, None)).ok_or(DispatchError::Corruption),
			Bounded::Lookup { hash, len } => {
				let data = Self::fetch(hash, Some(*len))?;
				T::decode(&mut &data[..]).ok().map(|x| (x, Some(data.len() as u32))).ok_or(DispatchError::Corruption)
			}
			Bounded::Legacy { hash, .. } => {
				let data = Self::fetch(hash, None)?;
				T::decode(&mut &data[..]).ok().map(|x| (x, Some(data.len() as u32))).ok_or(DispatchError::Corruption)
			}
		}
	}
	fn realize<T: Decode>(bounded: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		let r = Self::peek(bounded)?;
		Self::drop(bounded);
		Ok(r)
	}
}
pub trait StorePreimage: QueryPreimage {
	const MAX_LENGTH: usize;
	fn note(bytes: Cow<[u8]>) -> Result<<Self::H as Hash>::Output, DispatchError>;
	fn unnote(hash: &<Self::H as Hash>::Output) {
		Self::unrequest(hash)
	}
	fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError> {
		let data = t.encode();
		let len = data.len() as u32;
		Ok(match BoundedInline::try_from(data) {
			Ok(bounded) => Bounded::Inline(bounded),
			Err(unbounded) => Bounded::Lookup { hash: Self::note(unbounded.into())?, len },
		})
	}
}
impl QueryPreimage for () {
	type H = BlakeTwo256;
	fn len(_: &sp_core::H256) -> Option<u32> {
		None
	}
	fn fetch(_: &sp_core::H256, _: Option<u32>) -> FetchResult {
		Err(DispatchError::Unavailable)
	}
	fn is_requested(_: &sp_core::H256) -> bool {
		false
	}
	fn request(_: &sp_core::H256) {}
	fn unrequest(_: &sp_core::H256) {}
}
impl StorePreimage for () {
	const MAX_LENGTH: usize = 0;
	fn note(_: Cow<[u8]>) -> Result<sp_core::H256, DispatchError> {
		Err(DispatchError::Exhausted)
	}
}
