//! The macro that puts several authenticators together.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

/// `pub Name<Authority> { A, B, }`: `NameAuthenticator`, `NameDeviceAttestation` and `NameCredential`.
#[proc_macro]
pub fn composite_authenticator(input: TokenStream) -> TokenStream {
	let mut name = None;
	let mut parts = vec![];
	for t in input {
		match t {
			TokenTree::Ident(i) if name.is_none() && i.to_string() != "pub" => name = Some(i.to_string()),
			TokenTree::Group(g) if g.delimiter() == proc_macro::Delimiter::Brace =>
				parts = g.stream().to_string().split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
			_ => (),
		}
	}
	let name = name.expect("a name");
	let mut att = String::new();
	let mut cred = String::new();
	let (mut va, mut vc) = (String::new(), String::new());
	for p in &parts {
		att += &format!("{p}(<{p} as ::fc_traits_authn::Authenticator>::Attestation),");
		cred += &format!("{p}(<{p} as ::fc_traits_authn::Authenticator>::Credential),");
		va += &format!("{name}DeviceAttestation::{p}(x) => <{p} as ::fc_traits_authn::Authenticator>::verify_attestation(x),");
		vc += &format!("{name}Credential::{p}(x) => <{p} as ::fc_traits_authn::Authenticator>::verify_credential(x),");
	}
	let derive = "#[derive(::parity_scale_codec::Encode, ::parity_scale_codec::Decode, Clone, PartialEq, Eq, Debug, ::scale_info::TypeInfo)]";
	format!(
		"pub use ::fc_traits_authn::HashedUserId;
		{derive} pub enum {name}DeviceAttestation {{ {att} }}
		{derive} pub enum {name}Credential {{ {cred} }}
		pub struct {name}Authenticator;
		impl ::fc_traits_authn::Authenticator for {name}Authenticator {{
			type Attestation = {name}DeviceAttestation;
			type Credential = {name}Credential;
			fn verify_attestation(a: &Self::Attestation) -> Option<::fc_traits_authn::DeviceId> {{ match a {{ {va} }} }}
			fn verify_credential(c: &Self::Credential) -> Option<(::fc_traits_authn::DeviceId, ::fc_traits_authn::HashedUserId)> {{ match c {{ {vc} }} }}
		}}"
	)
	.parse()
	.expect("code")
}
