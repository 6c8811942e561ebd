//! Stand-in for pass-webauthn: a device shows the challenge it was given, for the authority it was made for.
//! Signatures are left out: a credential names its device and its user.
use codec::{Decode, Encode};
use fc_traits_authn::{AuthorityId, Challenger, DeviceId, HashedUserId};
use frame_support::traits::Get;
use std::marker::PhantomData;

pub struct Authenticator<Ch, A>(PhantomData<(Ch, A)>);
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, scale_info::TypeInfo)]
pub struct Attestation<Cx> {
	pub authority: AuthorityId,
	pub device: DeviceId,
	pub context: Cx,
	pub challenge: Vec<u8>,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, scale_info::TypeInfo)]
pub struct Credential<Cx> {
	pub authority: AuthorityId,
	pub user: HashedUserId,
	pub device: DeviceId,
	pub context: Cx,
	pub challenge: Vec<u8>,
}
impl<Ch: Challenger, A: Get<AuthorityId>> fc_traits_authn::Authenticator for Authenticator<Ch, A>
where
	Ch::Context: scale_info::TypeInfo + 'static,
{
	type Attestation = Attestation<Ch::Context>;
	type Credential = Credential<Ch::Context>;
	fn verify_attestation(a: &Self::Attestation) -> Option<DeviceId> {
		Ch::check_challenge(&a.context, &a.challenge)?;
		(a.authority == A::get()).then_some(a.device)
	}
	fn verify_credential(c: &Self::Credential) -> Option<(DeviceId, HashedUserId)> {
		Ch::check_challenge(&c.context, &c.challenge)?;
		(c.authority == A::get()).then_some((c.device, c.user))
	}
}
