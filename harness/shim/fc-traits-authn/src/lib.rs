//! Stand-in for fc-traits-authn: who proves what, and how.
pub use fc_traits_authn_macros::composite_authenticator;

pub type Challenge = [u8; 32];
pub type HashedUserId = [u8; 32];
pub type DeviceId = [u8; 32];
pub type AuthorityId = [u8; 32];

pub trait Challenger {
	type Context: codec::Encode + codec::Decode + Clone + PartialEq + core::fmt::Debug;
	fn generate(cx: &Self::Context) -> Challenge;
	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()>;
}
/// What a new device shows, and what a known device shows later on.
pub trait Authenticator {
	type Attestation: codec::Encode + codec::Decode + Clone + PartialEq + core::fmt::Debug + scale_info::TypeInfo + 'static;
	type Credential: codec::Encode + codec::Decode + Clone + PartialEq + core::fmt::Debug + scale_info::TypeInfo + 'static;
	/// The device this attestation vouches for, if it is sound.
	fn verify_attestation(a: &Self::Attestation) -> Option<DeviceId>;
	/// The device and user this credential is of, if it is sound.
	fn verify_credential(c: &Self::Credential) -> Option<(DeviceId, HashedUserId)>;
}
pub mod util {
	pub struct AuthorityFromPalletId<Id>(core::marker::PhantomData<Id>);
	impl<Id: frame_support::traits::Get<frame_support::PalletId>> frame_support::traits::Get<super::AuthorityId> for AuthorityFromPalletId<Id> {
		fn get() -> super::AuthorityId {
			let mut a = [0; 32];
			a[..8].copy_from_slice(&Id::get().0);
			a
		}
	}
	pub mod dummy {
		pub struct Dummy<A>(core::marker::PhantomData<A>);
	}
}
