//! Dispatch system.
pub use sp_runtime::{traits::Dispatchable, DispatchError, RuntimeDebug};
pub use crate::traits::{CallableCallFor, GetCallMetadata, GetCallName, UnfilteredDispatchable};
use crate::weights::Weight;
use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
use std::fmt::Debug;

pub use sp_runtime::DispatchResult;
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;

pub trait Parameter: Codec + EncodeLike + Clone + Eq + Debug + TypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + Debug + TypeInfo> Parameter for T {}

pub trait Callable<T> {
	type RuntimeCall: UnfilteredDispatchable + Codec + Clone + PartialEq + Eq;
}

#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A: Debug> Debug for RawOrigin<A> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			RawOrigin::Root => f.write_str("Root"),
			RawOrigin::Signed(a) => f.debug_tuple("Signed").field(a).finish(),
			RawOrigin::None => f.write_str("None"),
		}
	}
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(s: Option<A>) -> Self {
		match s {
			Some(who) => RawOrigin::Signed(who),
			None => RawOrigin::None,
		}
	}
}
impl<A> RawOrigin<A> {
	pub fn as_signed(&self) -> Option<&A> {
		match &self {
			Self::Signed(x) => Some(x),
			_ => None,
		}
	}
	pub fn is_root(&self) -> bool {
		matches!(&self, Self::Root)
	}
	pub fn is_none(&self) -> bool {
		matches!(&self, Self::None)
	}
}

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Default)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
impl From<Pays> for PostDispatchInfo {
	fn from(p: Pays) -> Self {
		Self { actual_weight: None, pays_fee: p }
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Default, Hash, Ord, PartialOrd)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational]
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl sp_runtime::traits::Printable for PostDispatchInfo {}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Self::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(w: Option<Weight>) -> Self {
		Self { actual_weight: w, pays_fee: Default::default() }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from(w: (Option<Weight>, Pays)) -> Self {
		Self { actual_weight: w.0, pays_fee: w.1 }
	}
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() }
	}
}

/// What a `#[pallet::weight]` expression may evaluate to.
pub trait IntoDispatchInfo {
	fn into_dispatch_info(self) -> DispatchInfo;
}
impl IntoDispatchInfo for Weight {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self, ..Default::default() }
	}
}
impl IntoDispatchInfo for u64 {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() }
	}
}
impl IntoDispatchInfo for i32 {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: Weight::from_parts(self as u64, 0), ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass, Pays) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 }
	}
}
impl IntoDispatchInfo for (Weight, Pays) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() }
	}
}
pub fn extract_actual_weight(result: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
	match result {
		Ok(p) => p.actual_weight,
		Err(e) => e.post_info.actual_weight,
	}
	.unwrap_or(info.weight)
	.min(info.weight)
}

/// What a sender writes into a transaction and believes of the chain it is for.
#[derive(Clone, Debug, Default)]
pub struct Terms {
	pub nonce: u32,
	pub era: sp_runtime::generic::Era,
	pub tip: u128,
	/// the asset fees are paid in, encoded
	pub asset: Option<Vec<u8>>,
	pub spec_version: u32,
	pub transaction_version: u32,
	/// encoded hashes of the first block and of the one the era counts from
	pub genesis: Vec<u8>,
	pub birth: Vec<u8>,
}
/// Upstream's trait of this name with, besides, the sender's part in it (`terms` and `believed`).
pub trait SignedExtension<AccountId, Call>: Codec {
	type Pre;
	fn terms(t: &Terms) -> Self;
	/// What the sender signs without sending it.
	fn believed(_: &Terms) -> Vec<u8> {
		Vec::new()
	}
	fn additional_signed(&self) -> Result<Vec<u8>, TransactionValidityError> {
		Ok(Vec::new())
	}
	fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError>;
	fn post_dispatch(_: Self::Pre, _info: &DispatchInfo, _post: &PostDispatchInfo, _len: usize) -> Result<(), TransactionValidityError> {
		Ok(())
	}
}
use sp_runtime::transaction_validity::TransactionValidityError;
macro_rules! extensions {
	($($n:ident)*) => {
		#[allow(non_snake_case, unused)]
		impl<AccountId, Call, $($n: SignedExtension<AccountId, Call>),*> SignedExtension<AccountId, Call> for ($($n,)*) {
			type Pre = ($($n::Pre,)*);
			fn terms(t: &Terms) -> Self {
				($($n::terms(t),)*)
			}
			fn believed(t: &Terms) -> Vec<u8> {
				let mut v = Vec::new();
				$(v.extend($n::believed(t));)*
				v
			}
			fn additional_signed(&self) -> Result<Vec<u8>, TransactionValidityError> {
				let ($($n,)*) = self;
				let mut v = Vec::new();
				$(v.extend($n.additional_signed()?);)*
				Ok(v)
			}
			fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
				let ($($n,)*) = self;
				Ok(($($n.pre_dispatch(who, call, info, len)?,)*))
			}
			fn post_dispatch(pre: Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
				let ($($n,)*) = pre;
				$($n::post_dispatch($n, info, post, len)?;)*
				Ok(())
			}
		}
	};
}
extensions!();
extensions!(A);
extensions!(A B);
extensions!(A B C);
extensions!(A B C D);
extensions!(A B C D E);
extensions!(A B C D E F);
extensions!(A B C D E F G);
extensions!(A B C D E F G H);
extensions!(A B C D E F G H I);
extensions!(A B C D E F G H I J);
extensions!(A B C D E F G H I J K);
extensions!(A B C D E F G H I J K L);

/// Whether a call costs nothing from this origin.
pub trait CheckIfFeeless {
	type Origin;
	fn is_feeless(&self, origin: &Self::Origin) -> bool;
}
