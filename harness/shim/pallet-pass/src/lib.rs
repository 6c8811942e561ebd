//! Stand-in for pallet-pass: accounts that belong to a user's devices.
use fc_traits_authn::{Authenticator, DeviceId, HashedUserId};
use frame_support::traits::EnsureOriginWithArg;
pub type AttestationOf<T> = <<T as Config>::Authenticator as Authenticator>::Attestation;
pub type CredentialOf<T> = <<T as Config>::Authenticator as Authenticator>::Credential;
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;
	use frame_support::traits::fungible::Mutate as _;

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = frame_support::dispatch::PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type Currency: frame_support::traits::fungible::Mutate<Self::AccountId, Balance = u128>;
		type WeightInfo;
		type Authenticator: Authenticator;
		type PalletsOrigin;
		type PalletId: Get<frame_support::PalletId>;
		type MaxSessionDuration: Get<BlockNumberFor<Self>>;
		type RegisterOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, HashedUserId, Success = Option<DepositInformation<Self>>>;
		type Scheduler;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Registered { who: T::AccountId, user: HashedUserId },
		SessionCreated { session_key: T::AccountId, until: BlockNumberFor<T> },
	}
	#[pallet::error]
	pub enum Error<T> {
		AccountAlreadyRegistered,
		AccountNotFound,
		CredentialInvalid,
		DeviceAttestationInvalid,
		DeviceNotFound,
		SessionExpired,
		SessionNotFound,
	}
	#[pallet::storage]
	pub type Accounts<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, HashedUserId>;
	#[pallet::storage]
	pub type Devices<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Blake2_128Concat, DeviceId, ()>;
	#[pallet::storage]
	pub type Sessions<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, (T::AccountId, BlockNumberFor<T>)>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn register(origin: OriginFor<T>, user: HashedUserId, attestation: AttestationOf<T>) -> DispatchResult {
			let deposit = T::RegisterOrigin::ensure_origin(origin, &user)?;
			let who = Self::account_for(&user);
			ensure!(!Accounts::<T>::contains_key(&who), Error::<T>::AccountAlreadyRegistered);
			if let Some(d) = deposit {
				T::Currency::transfer(&d.source, &d.beneficiary, d.amount, frame_support::traits::tokens::Preservation::Expendable)?;
			}
			let device = T::Authenticator::verify_attestation(&attestation).ok_or(Error::<T>::DeviceAttestationInvalid)?;
			frame_system::Pallet::<T>::inc_providers(&who);
			Accounts::<T>::insert(&who, user);
			Devices::<T>::insert(&who, device, ());
			Self::deposit_event(Event::Registered { who, user });
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		#[pallet::feeless_if(|_: &OriginFor<T>, device: &DeviceId, credential: &CredentialOf<T>, _: &Option<BlockNumberFor<T>>| Pallet::<T>::try_authenticate(device, credential).is_ok())]
		pub fn authenticate(origin: OriginFor<T>, device: DeviceId, credential: CredentialOf<T>, duration: Option<BlockNumberFor<T>>) -> DispatchResult {
			let signer = ensure_signed(origin)?;
			let who = Self::try_authenticate(&device, &credential)?;
			let most = T::MaxSessionDuration::get();
			let until = frame_system::Pallet::<T>::block_number() + duration.unwrap_or(most).min(most);
			Sessions::<T>::insert(&signer, (who.clone(), until));
			Self::deposit_event(Event::SessionCreated { session_key: signer, until });
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn add_device(origin: OriginFor<T>, attestation: AttestationOf<T>) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = (attestation,);
			Err(DispatchError::Other("not modelled"))
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn dispatch(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>, maybe_credential: Option<(DeviceId, CredentialOf<T>)>, maybe_next_session_key: Option<T::AccountId>) -> DispatchResult {
			let who = match maybe_credential {
				Some((device, credential)) => Self::try_authenticate(&device, &credential)?,
				None => {
					let signer = ensure_signed(origin)?;
					Self::signer_from_session_key(&signer)?
				}
			};
			if let Some(next) = maybe_next_session_key {
				let until = frame_system::Pallet::<T>::block_number() + T::MaxSessionDuration::get();
				Sessions::<T>::insert(next, (who.clone(), until));
			}
			call.dispatch(RawOrigin::Signed(who).into()).map(|_| ()).map_err(|e| e.error)
		}
	}
	impl<T: Config> Pallet<T> {
		/// The account of a user.
		pub fn account_for(user: &HashedUserId) -> T::AccountId {
			use sp_runtime::traits::AccountIdConversion;
			T::PalletId::get().into_sub_account_truncating(user)
		}
		pub fn try_authenticate(device: &DeviceId, credential: &CredentialOf<T>) -> Result<T::AccountId, Error<T>> {
			let (d, user) = T::Authenticator::verify_credential(credential).ok_or(Error::<T>::CredentialInvalid)?;
			let who = Self::account_for(&user);
			if !Accounts::<T>::contains_key(&who) {
				return Err(Error::<T>::AccountNotFound);
			}
			if d != *device || !Devices::<T>::contains_key(&who, device) {
				return Err(Error::<T>::DeviceNotFound);
			}
			Ok(who)
		}
		/// The account a key acts for at the moment.
		pub fn signer_from_session_key(key: &T::AccountId) -> Result<T::AccountId, Error<T>> {
			let (who, until) = Sessions::<T>::get(key).ok_or(Error::<T>::SessionNotFound)?;
			if until > frame_system::Pallet::<T>::block_number() { Ok(who) } else { Err(Error::<T>::SessionExpired) }
		}
	}
}

pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
/// Who pays what to whom for a new account.
pub struct DepositInformation<T: Config> {
	pub source: T::AccountId,
	pub beneficiary: T::AccountId,
	pub amount: u128,
}
pub struct EnsureSignedPays<T, Amount, Beneficiary>(core::marker::PhantomData<(T, Amount, Beneficiary)>);
impl<T: Config, Amount: frame_support::traits::Get<u128>, Beneficiary: frame_support::traits::Get<T::AccountId>>
	EnsureOriginWithArg<T::RuntimeOrigin, HashedUserId> for EnsureSignedPays<T, Amount, Beneficiary>
{
	type Success = Option<DepositInformation<T>>;
	fn try_origin(o: T::RuntimeOrigin, _: &HashedUserId) -> Result<Self::Success, T::RuntimeOrigin> {
		match frame_system::ensure_signed(o.clone()) {
			Ok(source) => Ok(Some(DepositInformation { source, beneficiary: Beneficiary::get(), amount: Amount::get() })),
			Err(_) => Err(o),
		}
	}
}
#[derive(codec::Encode, codec::Decode, Clone, PartialEq, Eq, Debug)]
pub struct ChargeTransactionToPassAccount<S, T, I>(pub S, core::marker::PhantomData<(T, I)>);

use frame_support::dispatch::{DispatchInfo, PostDispatchInfo, SignedExtension, Terms};
use sp_runtime::transaction_validity::TransactionValidityError;
impl<T: Config, I, S: SignedExtension<T::AccountId, <T as frame_system::Config>::RuntimeCall>>
	SignedExtension<T::AccountId, <T as frame_system::Config>::RuntimeCall> for ChargeTransactionToPassAccount<S, T, I>
{
	type Pre = S::Pre;
	fn terms(t: &Terms) -> Self {
		Self(S::terms(t), core::marker::PhantomData)
	}
	fn believed(t: &Terms) -> Vec<u8> {
		S::believed(t)
	}
	fn additional_signed(&self) -> Result<Vec<u8>, TransactionValidityError> {
		self.0.additional_signed()
	}
	fn pre_dispatch(
		self,
		who: &T::AccountId,
		call: &<T as frame_system::Config>::RuntimeCall,
		info: &DispatchInfo,
		len: usize,
	) -> Result<Self::Pre, TransactionValidityError> {
		let payer = Pallet::<T>::signer_from_session_key(who).unwrap_or(who.clone());
		self.0.pre_dispatch(&payer, call, info, len)
	}
	fn post_dispatch(pre: Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		S::post_dispatch(pre, info, post, len)
	}
}
