//! Stand-in for frame-support-procedural: the pallet, runtime and derive_impl attributes and
//! the NoBound derives, reduced to what the verified code needs.
use proc_macro::TokenStream;

mod derive_impl;
mod no_bound;
mod pallet;
mod runtime;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::expand(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn runtime(_attr: TokenStream, item: TokenStream) -> TokenStream {
	runtime::expand(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn derive_impl(attr: TokenStream, item: TokenStream) -> TokenStream {
	derive_impl::expand(attr.into(), item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::layered(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
#[proc_macro_attribute]
pub fn pallet_section(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
#[proc_macro_attribute]
pub fn register_default_impl(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}

#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(i: TokenStream) -> TokenStream {
	no_bound::clone(syn::parse_macro_input!(i)).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(i: TokenStream) -> TokenStream {
	no_bound::debug(syn::parse_macro_input!(i)).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_no_bound(i: TokenStream) -> TokenStream {
	no_bound::debug(syn::parse_macro_input!(i)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(i: TokenStream) -> TokenStream {
	no_bound::partial_eq(syn::parse_macro_input!(i)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(i: TokenStream) -> TokenStream {
	no_bound::eq(syn::parse_macro_input!(i)).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(i: TokenStream) -> TokenStream {
	no_bound::default(syn::parse_macro_input!(i)).into()
}
#[proc_macro_derive(PalletError)]
pub fn pallet_error(_i: TokenStream) -> TokenStream {
	TokenStream::new()
}
