use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields};

fn head(i: &DeriveInput, tr: TokenStream, body: TokenStream) -> TokenStream {
	let (g, t, w) = i.generics.split_for_impl();
	let n = &i.ident;
	quote! { #[automatically_derived] const _: () = { impl #g #tr for #n #t #w { #body } }; }
}
/// (pattern constructor, fields) of every shape, with fields bound under a prefix.
fn shapes(i: &DeriveInput) -> Vec<(TokenStream, String, Fields)> {
	match &i.data {
		Data::Struct(s) => vec![(quote!(Self), i.ident.to_string(), s.fields.clone())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let n = &v.ident;
				(quote!(Self::#n), v.ident.to_string(), v.fields.clone())
			})
			.collect(),
		Data::Union(_) => vec![],
	}
}
fn pat(path: &TokenStream, f: &Fields, prefix: &str) -> (TokenStream, Vec<syn::Ident>) {
	match f {
		Fields::Unit => (quote!(#path), vec![]),
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			let vars: Vec<_> = names.iter().map(|n| format_ident!("{}_{}", prefix, n)).collect();
			(quote!(#path { #(#names: #vars),* }), vars)
		}
		Fields::Unnamed(u) => {
			let vars: Vec<_> = (0..u.unnamed.len()).map(|k| format_ident!("{}_{}", prefix, k)).collect();
			(quote!(#path(#(#vars),*)), vars)
		}
	}
}
pub fn clone(i: DeriveInput) -> TokenStream {
	let arms = shapes(&i).into_iter().map(|(p, _, f)| {
		let (pa, vars) = pat(&p, &f, "a");
		let build = match &f {
			Fields::Unit => quote!(#p),
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.clone().unwrap());
				quote!(#p { #(#names: ::core::clone::Clone::clone(#vars)),* })
			}
			Fields::Unnamed(_) => quote!(#p(#(::core::clone::Clone::clone(#vars)),*)),
		};
		quote!(#pa => #build)
	});
	let arms: Vec<_> = arms.collect();
	let body = if arms.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms),* }) };
	head(&i, quote!(::core::clone::Clone), quote!(fn clone(&self) -> Self { #body }))
}
pub fn debug(i: DeriveInput) -> TokenStream {
	let arms: Vec<_> = shapes(&i)
		.into_iter()
		.map(|(p, name, f)| {
			let (pa, vars) = pat(&p, &f, "a");
			match &f {
				Fields::Unit => quote!(#pa => f.write_str(#name)),
				Fields::Named(n) => {
					let names = n.named.iter().map(|f| f.ident.clone().unwrap().to_string());
					quote!(#pa => f.debug_struct(#name)#(.field(#names, #vars))*.finish())
				}
				Fields::Unnamed(_) => quote!(#pa => f.debug_tuple(#name)#(.field(#vars))*.finish()),
			}
		})
		.collect();
	let body = if arms.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms),* }) };
	head(
		&i,
		quote!(::core::fmt::Debug),
		quote!(fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body }),
	)
}
pub fn partial_eq(i: DeriveInput) -> TokenStream {
	let arms: Vec<_> = shapes(&i)
		.into_iter()
		.map(|(p, _, f)| {
			let (pa, va) = pat(&p, &f, "a");
			let (pb, vb) = pat(&p, &f, "b");
			quote!((#pa, #pb) => true #(&& #va == #vb)*)
		})
		.collect();
	let n = arms.len();
	let rest = if n > 1 { quote!(, _ => false) } else { quote!() };
	let body = if n == 0 { quote!(true) } else { quote!(match (self, other) { #(#arms),* #rest }) };
	head(&i, quote!(::core::cmp::PartialEq), quote!(fn eq(&self, other: &Self) -> bool { #body }))
}
pub fn eq(i: DeriveInput) -> TokenStream {
	head(&i, quote!(::core::cmp::Eq), quote!())
}
pub fn default(i: DeriveInput) -> TokenStream {
	let (p, f) = match &i.data {
		Data::Struct(s) => (quote!(Self), s.fields.clone()),
		Data::Enum(e) => {
			let v = e
				.variants
				.iter()
				.find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
				.or(e.variants.first())
				.unwrap();
			let n = &v.ident;
			(quote!(Self::#n), v.fields.clone())
		}
		_ => panic!("union"),
	};
	let build = match &f {
		Fields::Unit => quote!(#p),
		Fields::Named(n) => {
			let names = n.named.iter().map(|f| f.ident.clone().unwrap());
			quote!(#p { #(#names: ::core::default::Default::default()),* })
		}
		Fields::Unnamed(u) => {
			let v = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
			quote!(#p(#(#v),*))
		}
	};
	head(&i, quote!(::core::default::Default), quote!(fn default() -> Self { #build }))
}
