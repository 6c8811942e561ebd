//! Stand-in for frame-executive: transactions are applied; blocks are driven from outside.
pub struct Executive<System, Block, Context, UnsignedValidator, AllPallets, OnRuntimeUpgrade = ()>(
	core::marker::PhantomData<(System, Block, Context, UnsignedValidator, AllPallets, OnRuntimeUpgrade)>,
);
use codec::Encode;
use frame_support::{
	dispatch::{DispatchClass, GetDispatchInfo, PostDispatchInfo, SignedExtension},
	traits::OriginTrait,
};
use sp_runtime::{
	generic::UncheckedExtrinsic,
	traits::{self, Dispatchable, IdentifyAccount, StaticLookup, Verify},
	transaction_validity::{InvalidTransaction, TransactionValidityError, UnknownTransaction},
	ApplyExtrinsicResult,
};
/// What is signed: itself, or its hash if it is long.
pub fn payload(call: &impl Encode, extra: &impl Encode, additional: Vec<u8>) -> Vec<u8> {
	let mut p = (call, extra).encode();
	p.extend(additional);
	if p.len() > 256 { sp_io::hashing::blake2_256(&p).to_vec() } else { p }
}
impl<T, Block, Context, V, All, Up, Address, Call, Signature, Extra> Executive<T, Block, Context, V, All, Up>
where
	T: frame_system::Config<RuntimeCall = Call>,
	Block: traits::Block<Extrinsic = UncheckedExtrinsic<Address, Call, Signature, Extra>>,
	T::Lookup: StaticLookup<Source = Address, Target = T::AccountId>,
	Call: Encode + GetDispatchInfo + Dispatchable<RuntimeOrigin = T::RuntimeOrigin, PostInfo = PostDispatchInfo>,
	Extra: SignedExtension<T::AccountId, Call>,
	Signature: Verify + Encode,
	Signature::Signer: IdentifyAccount<AccountId = T::AccountId>,
	Address: Encode,
{
	/// Refused transactions leave nothing behind: whoever builds the block drops them.
	pub fn apply_extrinsic(xt: Block::Extrinsic) -> ApplyExtrinsicResult {
		frame_support::storage::with_storage_layer::<_, TransactionValidityError>(|| Self::apply(xt))
	}
	fn apply(xt: Block::Extrinsic) -> ApplyExtrinsicResult {
		let len = xt.encode().len();
		let UncheckedExtrinsic { signature, function } = xt;
		let (address, signature, extra) = signature.ok_or(TransactionValidityError::Unknown(UnknownTransaction::NoUnsignedValidator))?;
		let who = T::Lookup::lookup(address).map_err(|_| TransactionValidityError::Unknown(UnknownTransaction::CannotLookup))?;
		let signed = payload(&function, &extra, extra.additional_signed()?);
		if !signature.verify(&signed[..], &who) {
			return Err(InvalidTransaction::BadProof.into());
		}
		let info = function.get_dispatch_info();
		let pre = extra.pre_dispatch(&who, &function, &info, len)?;
		let res = function.dispatch(<T::RuntimeOrigin as OriginTrait>::signed(who));
		let post = match &res {
			Ok(p) => *p,
			Err(e) => e.post_info,
		};
		if res.is_err() && info.class == DispatchClass::Mandatory {
			return Err(InvalidTransaction::BadMandatory.into());
		}
		frame_system::Pallet::<T>::note_applied_extrinsic(res.map(|_| ()).map_err(|e| e.error));
		Extra::post_dispatch(pre, &info, &post, len)?;
		Ok(res.map(|_| ()).map_err(|e| e.error))
	}
}
