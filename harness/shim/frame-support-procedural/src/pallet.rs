use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, punctuated::Punctuated, *};

struct PalletAttr {
	name: String,
	meta: Meta,
}

/// Removes the `#[pallet::..]` attributes and returns them.
fn take(attrs: &mut Vec<Attribute>) -> Vec<PalletAttr> {
	let mut out = vec![];
	attrs.retain(|a| {
		let segs: Vec<_> = a.path().segments.iter().map(|s| s.ident.to_string()).collect();
		if segs.len() == 2 && segs[0] == "pallet" {
			out.push(PalletAttr { name: segs[1].clone(), meta: a.meta.clone() });
			false
		} else {
			true
		}
	});
	out
}
fn has(v: &[PalletAttr], n: &str) -> bool {
	v.iter().any(|a| a.name == n)
}
fn attrs_of(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Struct(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		Item::Const(x) => &mut x.attrs,
		_ => return None,
	})
}
fn cfgs(attrs: &[Attribute]) -> Vec<Attribute> {
	attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect()
}
fn not_doc(attrs: &[Attribute]) -> Vec<Attribute> {
	attrs.iter().filter(|a| !a.path().is_ident("doc")).cloned().collect()
}

pub fn layered(item: TokenStream) -> Result<TokenStream> {
	let mut f: ImplItemFn = syn::parse2(item)?;
	wrap(&mut f);
	Ok(f.into_token_stream())
}
/// Runs the body in a storage layer that is rolled back on error.
fn wrap(f: &mut ImplItemFn) {
	let ret = match &f.sig.output {
		ReturnType::Default => return,
		ReturnType::Type(_, t) => t.clone(),
	};
	let body = f.block.clone();
	f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(move || -> #ret #body) });
}

struct Gen {
	inst: bool,
}
impl Gen {
	/// `T: Config` / `T: Config<I>, I: 'static`
	fn bound(&self) -> TokenStream {
		if self.inst { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) }
	}
	fn decl(&self) -> TokenStream {
		if self.inst { quote!(T: Config<I>, I: 'static = ()) } else { quote!(T: Config) }
	}
	fn args(&self) -> TokenStream {
		if self.inst { quote!(T, I) } else { quote!(T) }
	}
	fn config(&self) -> TokenStream {
		if self.inst { quote!(Config<I>) } else { quote!(Config) }
	}
}

pub fn expand(item: TokenStream) -> Result<TokenStream> {
	let mut module: ItemMod = syn::parse2(item)?;
	let vis = module.vis.clone();
	let name = module.ident.clone();
	let mod_attrs = module.attrs.clone();
	let (_, items) = module.content.take().ok_or_else(|| Error::new(Span::call_site(), "inline module expected"))?;

	let inst = items.iter().any(|i| match i {
		Item::Trait(t) => t.ident == "Config" && t.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_))),
		_ => false,
	});
	let g = Gen { inst };
	let (bound, decl, args, config) = (g.bound(), g.decl(), g.args(), g.config());

	let mut out: Vec<TokenStream> = vec![];
	let mut event: Option<TokenStream> = None; // type as seen from __parts
	let mut origin: Option<TokenStream> = None;
	let mut reasons: Vec<(Ident, TokenStream)> = vec![];
	let mut genesis: Option<TokenStream> = None;
	let mut calls: Vec<Call> = vec![];
	let mut have_hooks = false;
	let mut have_error = false;

	let priv_ = quote!(::frame_support::__private);
	let phantom = quote!(::core::marker::PhantomData);

	for mut it in items {
		let pa = match attrs_of(&mut it) {
			Some(a) => take(a),
			None => vec![],
		};
		if pa.is_empty() {
			out.push(it.into_token_stream());
			continue;
		}
		match it {
			Item::Struct(mut s) if has(&pa, "pallet") => {
				if let Fields::Unnamed(f) = &mut s.fields {
					f.unnamed[0].ty = parse_quote!(#phantom<(#args)>);
					if !inst {
						f.unnamed[0].ty = parse_quote!(#phantom<T>);
					}
				}
				out.push(quote!(
					#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::DebugNoBound)]
					#s
				));
			}
			Item::Trait(mut t) if has(&pa, "config") => {
				for i in &mut t.items {
					match i {
						TraitItem::Type(x) => {
							take(&mut x.attrs);
						}
						TraitItem::Fn(x) => {
							take(&mut x.attrs);
						}
						TraitItem::Const(x) => {
							take(&mut x.attrs);
						}
						_ => {}
					}
				}
				out.push(t.into_token_stream());
			}
			Item::Type(t) if has(&pa, "storage") => out.push(storage(&g, t, &pa)?),
			Item::Enum(mut e) if has(&pa, "event") => {
				let deposit = pa.iter().find(|a| a.name == "generate_deposit");
				let generic = !e.generics.params.is_empty();
				for v in &mut e.variants {
					v.attrs = not_doc(&v.attrs);
				}
				if generic {
					e.variants.push(parse_quote!(
						#[doc(hidden)]
						#[codec(skip)]
						__Ignore(#phantom<(#args)>, ::frame_support::Never)
					));
				}
				let id = e.ident.clone();
				let (ig, tg, w) = e.generics.split_for_impl();
				let ty_info = type_info(&quote!(#ig), &quote!(#id #tg), &quote!(#w), &id.to_string());
				out.push(quote!(
					#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::DebugNoBound, #priv_::codec::Encode, #priv_::codec::Decode)]
					#[codec(crate = #priv_::codec)]
					#[codec(encode_bound())]
					#[codec(decode_bound())]
					#e
					#ty_info
				));
				let ev = if generic { quote!(Event<#args>) } else { quote!(Event) };
				event = Some(ev.clone());
				if let Some(d) = deposit {
					let list = d.meta.require_list()?;
					let sig = &list.tokens; // `pub(super) fn deposit_event`
					out.push(quote!(
						impl<#bound> Pallet<#args> {
							#[allow(dead_code)]
							#sig (event: #ev) {
								let event = <<T as #config>::RuntimeEvent as ::core::convert::From<#ev>>::from(event);
								let event = <<T as #config>::RuntimeEvent as ::core::convert::Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
								<::frame_system::Pallet<T>>::deposit_event(event)
							}
						}
					));
				}
			}
			Item::Enum(e) if has(&pa, "error") => {
				have_error = true;
				out.push(error(&g, e)?);
			}
			Item::Impl(mut i) if has(&pa, "call") => {
				let attr = pa.iter().find(|a| a.name == "call").unwrap();
				// #[pallet::call(weight(<T as Config>::WeightInfo))]
				let default_weight: Option<Type> = match &attr.meta {
					Meta::List(l) => {
						let inner: Meta = syn::parse2(l.tokens.clone())?;
						Some(syn::parse2(inner.require_list()?.tokens.clone())?)
					}
					_ => None,
				};
				for it in &mut i.items {
					if let ImplItem::Fn(f) = it {
						let c = call(f, calls.len(), default_weight.as_ref())?;
						calls.push(c);
						wrap(f);
					}
				}
				out.push(i.into_token_stream());
			}
			Item::Impl(i) if has(&pa, "hooks") => {
				have_hooks = true;
				out.push(i.into_token_stream());
			}
			Item::Enum(e) if has(&pa, "composite_enum") => {
				let id = e.ident.clone();
				let generic = !e.generics.params.is_empty();
				let (ig, tg, w) = e.generics.split_for_impl();
				let n = e.variants.len() as u32;
				let ty_info = type_info(&quote!(#ig), &quote!(#id #tg), &quote!(#w), &id.to_string());
				let count = quote!(impl #ig ::frame_support::traits::VariantCount for #id #tg #w { const VARIANT_COUNT: u32 = #n; });
				let copy = if generic { quote!() } else { quote!(Copy,) };
				out.push(quote!(
					#[derive(#copy Clone, Eq, PartialEq, Debug, #priv_::codec::Encode, #priv_::codec::Decode, #priv_::codec::MaxEncodedLen)]
					#[codec(crate = #priv_::codec)]
					#e
					#ty_info
					#count
				));
				reasons.push((id.clone(), if generic { quote!(#id<I>) } else { quote!(#id) }));
			}
			Item::Enum(e) if has(&pa, "origin") => {
				origin = Some(named(&e.ident, &e.generics));
				out.push(e.into_token_stream());
			}
			Item::Struct(e) if has(&pa, "origin") => {
				origin = Some(named(&e.ident, &e.generics));
				out.push(e.into_token_stream());
			}
			Item::Type(e) if has(&pa, "origin") => {
				origin = Some(named(&e.ident, &e.generics));
				out.push(e.into_token_stream());
			}
			Item::Struct(e) if has(&pa, "genesis_config") => {
				genesis = Some(named(&e.ident, &e.generics));
				let id = e.ident.clone();
				let (ig, tg, w) = e.generics.split_for_impl();
				out.push(quote!(
					#e
					impl #ig ::frame_support::sp_runtime::BuildStorage for #id #tg #w {
						fn assimilate_storage(&self, storage: &mut ::frame_support::sp_runtime::Storage) -> ::core::result::Result<(), ::std::string::String> {
							::frame_support::sp_runtime::assimilate(storage, || {
								<Self as ::frame_support::traits::BuildGenesisConfig>::build(self)
							})
						}
					}
				));
			}
			Item::Fn(f) if has(&pa, "type_value") => {
				let (v, id, ret, body) = (&f.vis, &f.sig.ident, &f.sig.output, &f.block);
				let ReturnType::Type(_, ty) = ret else { return Err(Error::new_spanned(f, "type_value needs a type")) };
				let gp = &f.sig.generics;
				if gp.params.is_empty() {
					out.push(quote!(#v struct #id; impl ::frame_support::traits::Get<#ty> for #id { fn get() -> #ty #body }));
				} else {
					let (ig, tg, w) = gp.split_for_impl();
					out.push(quote!(#v struct #id #gp (#phantom<(#args)>); impl #ig ::frame_support::traits::Get<#ty> for #id #tg #w { fn get() -> #ty #body }));
				}
			}
			other => out.push(other.into_token_stream()),
		}
	}

	// ---- Call ----
	out.push(call_enum(&g, &calls));

	// ---- hooks ----
	let bn = quote!(::frame_system::pallet_prelude::BlockNumberFor<T>);
	if !have_hooks {
		out.push(quote!(impl<#bound> ::frame_support::traits::Hooks<#bn> for Pallet<#args> {}));
	}
	out.push(quote!(
		impl<#bound> ::frame_support::traits::OnInitialize<#bn> for Pallet<#args> {
			fn on_initialize(n: #bn) -> ::frame_support::weights::Weight { <Self as ::frame_support::traits::Hooks<#bn>>::on_initialize(n) }
		}
		impl<#bound> ::frame_support::traits::OnFinalize<#bn> for Pallet<#args> {
			fn on_finalize(n: #bn) { <Self as ::frame_support::traits::Hooks<#bn>>::on_finalize(n) }
		}
		impl<#bound> ::frame_support::traits::OnIdle<#bn> for Pallet<#args> {
			fn on_idle(n: #bn, w: ::frame_support::weights::Weight) -> ::frame_support::weights::Weight { <Self as ::frame_support::traits::Hooks<#bn>>::on_idle(n, w) }
		}
		impl<#bound> ::frame_support::traits::OnRuntimeUpgrade for Pallet<#args> {
			fn on_runtime_upgrade() -> ::frame_support::weights::Weight { <Self as ::frame_support::traits::Hooks<#bn>>::on_runtime_upgrade() }
		}
		impl<#bound> ::frame_support::traits::PalletInfoAccess for Pallet<#args> {
			fn index() -> usize {
				<<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet is part of the runtime")
			}
			fn name() -> &'static str {
				<<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet is part of the runtime")
			}
			fn name_hash() -> [u8; 16] { ::frame_support::sp_core::hashing::twox_128(<Self as ::frame_support::traits::PalletInfoAccess>::name().as_bytes()) }
			fn module_name() -> &'static str { <Self as ::frame_support::traits::PalletInfoAccess>::name() }
		}
	));
	let _ = (have_error, decl);

	// ---- parts for the runtime macro ----
	let part = |n: &str, t: &Option<TokenStream>| -> TokenStream {
		let id = format_ident!("{}", n);
		match t {
			Some(t) => quote!(pub type #id<T, I = ()> = <super::#t as #priv_::Same<T, I>>::Out;),
			None => {
				let m = format_ident!("__Mark{}", n);
				quote!(pub struct #m; pub type #id<T, I = ()> = <#priv_::Absent<#m, I> as #priv_::Same<T, I>>::Out;)
			}
		}
	};
	let parts = vec![
		part("Event", &event),
		part("Call", &Some(quote!(Call<#args>))),
		part("Origin", &origin),
		part("HoldReason", &reasons.iter().find(|r| r.0 == "HoldReason").map(|r| r.1.clone())),
		part("FreezeReason", &reasons.iter().find(|r| r.0 == "FreezeReason").map(|r| r.1.clone())),
		part("SlashReason", &reasons.iter().find(|r| r.0 == "SlashReason").map(|r| r.1.clone())),
		part("LockId", &reasons.iter().find(|r| r.0 == "LockId").map(|r| r.1.clone())),
		match &genesis {
			Some(t) => quote!(pub type GenesisConfig<T, I = ()> = <super::#t as #priv_::Same<T, I>>::Out;),
			None => quote!(pub struct __MarkGenesis; pub type GenesisConfig<T, I = ()> = <#priv_::NoGenesis<__MarkGenesis> as #priv_::Same<T, I>>::Out;),
		},
		if inst {
			quote!(pub type Pallet<T, I = ()> = super::Pallet<T, I>;)
		} else {
			quote!(pub type Pallet<T, I = ()> = <super::Pallet<T> as #priv_::Same<T, I>>::Out;)
		},
	];
	out.push(quote!(
		#[doc(hidden)]
		#[allow(type_alias_bounds, dead_code)]
		pub mod __parts { #(#parts)* }
	));

	Ok(quote!(#(#mod_attrs)* #[allow(type_alias_bounds, unused_imports, unreachable_patterns)] #vis mod #name { #(#out)* }))
}

/// A generic item's name with the arguments the parts module gives it.
fn named(id: &Ident, g: &Generics) -> TokenStream {
	let names: Vec<_> = g
		.params
		.iter()
		.filter_map(|p| match p {
			GenericParam::Type(t) => Some(t.ident.clone()),
			_ => None,
		})
		.collect();
	if names.is_empty() { quote!(#id) } else { quote!(#id<#(#names),*>) }
}

fn type_info(ig: &TokenStream, ty: &TokenStream, w: &TokenStream, name: &str) -> TokenStream {
	let priv_ = quote!(::frame_support::__private);
	quote!(
		impl #ig #priv_::scale_info::TypeInfo for #ty #w {
			type Identity = Self;
			fn type_info() -> #priv_::scale_info::Type {
				#priv_::opaque_type_info(#name, module_path!())
			}
		}
	)
}

fn storage(g: &Gen, mut t: ItemType, pa: &[PalletAttr]) -> Result<TokenStream> {
	let (bound, args) = (g.bound(), g.args());
	let id = t.ident.clone();
	let prefix_name = pa
		.iter()
		.find(|a| a.name == "storage_prefix")
		.and_then(|a| a.meta.require_name_value().ok().cloned())
		.map(|nv| nv.value.to_token_stream())
		.unwrap_or_else(|| {
			let s = id.to_string();
			quote!(#s)
		});
	let prefix = format_ident!("_GeneratedPrefixForStorage{}", id);
	let cfg = cfgs(&t.attrs);
	t.attrs = not_doc(&t.attrs);
	let Type::Path(p) = &mut *t.ty else { return Err(Error::new_spanned(&t.ty, "storage type")) };
	let last = p.path.segments.last_mut().unwrap();
	let kind = last.ident.to_string();
	let PathArguments::AngleBracketed(ab) = &mut last.arguments else { return Err(Error::new_spanned(&last, "generics")) };
	let order: &[&str] = match kind.as_str() {
		"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
		"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		"StorageNMap" | "CountedStorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		k => return Err(Error::new_spanned(&t.ident, format!("storage kind {k}"))),
	};
	// positional arguments after the prefix
	let mut slots: Vec<Option<Type>> = vec![None; order.len()];
	let mut pos = 0;
	for a in &ab.args {
		match a {
			GenericArgument::Type(Type::Infer(_)) if pos == 0 && slots.iter().all(|s| s.is_none()) => {}
			GenericArgument::Type(ty) => {
				slots[pos] = Some(ty.clone());
				pos += 1;
			}
			GenericArgument::AssocType(at) => {
				let i = order.iter().position(|o| at.ident == o).ok_or_else(|| Error::new_spanned(at, "name"))?;
				slots[i] = Some(at.ty.clone());
			}
			_ => {}
		}
	}
	let at = |n: &str| order.iter().position(|o| *o == n).unwrap();
	let value = slots[at("Value")].clone().ok_or_else(|| Error::new_spanned(&t.ident, "value type"))?;
	let mut extra = quote!();
	if slots[at("QueryKind")].is_none() {
		slots[at("QueryKind")] = Some(parse_quote!(::frame_support::storage::types::OptionQuery));
	}
	if slots[at("OnEmpty")].is_none() {
		slots[at("OnEmpty")] = Some(parse_quote!(::frame_support::traits::GetDefault));
	}
	// ResultQuery<Error<T>::Variant>
	if let Some(Type::Path(q)) = &slots[at("QueryKind")] {
		let s = q.path.segments.last().unwrap().clone();
		if s.ident == "ResultQuery" {
			if let PathArguments::AngleBracketed(a) = &s.arguments {
				if let Some(GenericArgument::Type(Type::Path(ep))) = a.args.first() {
					let variant = ep.path.segments.last().unwrap().ident.clone();
					let mut err = ep.path.clone();
					err.segments.pop();
					let err: Path = Path { leading_colon: err.leading_colon, segments: err.segments.into_iter().collect::<Punctuated<_, Token![::]>>() };
					let get = format_ident!("__Frame_Internal_Get{}", id);
					extra = quote!(
						#[doc(hidden)]
						#[allow(non_camel_case_types)]
						pub struct #get<#args>(::core::marker::PhantomData<(#args)>);
						impl<#bound> ::frame_support::traits::Get<::core::result::Result<#value, #err>> for #get<#args> {
							fn get() -> ::core::result::Result<#value, #err> { ::core::result::Result::Err(<#err>::#variant) }
						}
					);
					slots[at("QueryKind")] = Some(parse_quote!(::frame_support::storage::types::ResultQuery<#err>));
					slots[at("OnEmpty")] = Some(parse_quote!(#get<#args>));
				}
			}
		}
	}
	let filled: Vec<Type> = slots.iter().flatten().cloned().collect();
	ab.args = parse_quote!(#prefix<#args>, #(#filled),*);
	// getter
	let mut getter = quote!();
	if let Some(a) = pa.iter().find(|a| a.name == "getter") {
		let toks = a.meta.require_list()?.tokens.clone();
		let f: TokenStream = toks.into_iter().skip(1).collect();
		let q = slots[at("QueryKind")].clone();
		let e = slots[at("OnEmpty")].clone();
		let ret = quote!(<#q as ::frame_support::storage::types::QueryKindTrait<#value, #e>>::Query);
		getter = match kind.as_str() {
			"StorageValue" => quote!(impl<#bound> Pallet<#args> { pub fn #f() -> #ret { <#id<#args>>::get() } }),
			"StorageMap" | "CountedStorageMap" => {
				let k = slots[at("Key")].clone();
				quote!(impl<#bound> Pallet<#args> { pub fn #f<KArg: ::frame_support::__private::codec::EncodeLike<#k>>(k: KArg) -> #ret { <#id<#args>>::get(k) } })
			}
			"StorageDoubleMap" => {
				let (k1, k2) = (slots[at("Key1")].clone(), slots[at("Key2")].clone());
				quote!(impl<#bound> Pallet<#args> { pub fn #f<KArg1: ::frame_support::__private::codec::EncodeLike<#k1>, KArg2: ::frame_support::__private::codec::EncodeLike<#k2>>(k1: KArg1, k2: KArg2) -> #ret { <#id<#args>>::get(k1, k2) } })
			}
			_ => quote!(),
		};
	}
	// the alias itself: give every parameter back
	Ok(quote!(
		#(#cfg)*
		#t
		#extra
		#[doc(hidden)]
		pub struct #prefix<#args>(::core::marker::PhantomData<(#args)>);
		impl<#bound> ::frame_support::traits::StorageInstance for #prefix<#args> {
			fn pallet_prefix() -> &'static str {
				<<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Pallet<#args>>().expect("pallet is part of the runtime")
			}
			const STORAGE_PREFIX: &'static str = #prefix_name;
		}
		#getter
	))
}

fn error(g: &Gen, mut e: ItemEnum) -> Result<TokenStream> {
	let (bound, args) = (g.bound(), g.args());
	let priv_ = quote!(::frame_support::__private);
	let id = e.ident.clone();
	let arms: Vec<TokenStream> = e
		.variants
		.iter()
		.map(|v| {
			let (n, s, c) = (&v.ident, v.ident.to_string(), cfgs(&v.attrs));
			match v.fields {
				Fields::Unit => quote!(#(#c)* Self::#n => #s),
				Fields::Named(_) => quote!(#(#c)* Self::#n { .. } => #s),
				Fields::Unnamed(_) => quote!(#(#c)* Self::#n(..) => #s),
			}
		})
		.collect();
	for v in &mut e.variants {
		v.attrs = not_doc(&v.attrs);
	}
	e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#args)>, ::frame_support::Never)));
	let ig = quote!(<#bound>);
	let ty_info = type_info(&ig, &quote!(#id<#args>), &quote!(), "Error");
	Ok(quote!(
		#[derive(#priv_::codec::Encode, #priv_::codec::Decode)]
		#[codec(crate = #priv_::codec)]
		#[codec(encode_bound())]
		#[codec(decode_bound())]
		#e
		#ty_info
		impl<#bound> #id<#args> {
			pub fn as_str(&self) -> &'static str {
				match self { #(#arms,)* Self::__Ignore(_, n) => match *n {} }
			}
		}
		impl<#bound> ::core::fmt::Debug for #id<#args> {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) }
		}
		impl<#bound> ::core::cmp::PartialEq for #id<#args> {
			fn eq(&self, o: &Self) -> bool { #priv_::codec::Encode::encode(self) == #priv_::codec::Encode::encode(o) }
		}
		impl<#bound> ::core::convert::From<#id<#args>> for &'static str {
			fn from(e: #id<#args>) -> &'static str { e.as_str() }
		}
		impl<#bound> ::core::convert::From<#id<#args>> for ::frame_support::sp_runtime::DispatchError {
			fn from(e: #id<#args>) -> Self {
				let index = <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Pallet<#args>>()
					.expect("pallet is part of the runtime") as u8;
				let mut error = #priv_::codec::Encode::encode(&e);
				error.resize(4, 0);
				let message = ::core::option::Option::Some(e.as_str());
				::frame_support::sp_runtime::DispatchError::Module(::frame_support::sp_runtime::ModuleError {
					index,
					error: [error[0], error[1], error[2], error[3]],
					message,
				})
			}
		}
	))
}

struct Call {
	name: Ident,
	cfg: Vec<Attribute>,
	index: u8,
	args: Vec<(bool, Ident, Type)>,
	weight: TokenStream,
	feeless: Option<TokenStream>,
}
fn call(f: &mut ImplItemFn, n: usize, default_weight: Option<&Type>) -> Result<Call> {
	let pa = take(&mut f.attrs);
	let name = f.sig.ident.clone();
	let index = match pa.iter().find(|a| a.name == "call_index") {
		Some(a) => syn::parse2::<LitInt>(a.meta.require_list()?.tokens.clone())?.base10_parse()?,
		None => n as u8,
	};
	let weight = match pa.iter().find(|a| a.name == "weight") {
		Some(a) => a.meta.require_list()?.tokens.clone(),
		None => match default_weight {
			Some(t) => quote!(<#t>::#name()),
			None => quote!(::frame_support::weights::Weight::zero()),
		},
	};
	let feeless = match pa.iter().find(|a| a.name == "feeless_if") {
		Some(a) => Some(a.meta.require_list()?.tokens.clone()),
		None => None,
	};
	let mut args = vec![];
	for a in f.sig.inputs.iter_mut().skip(1) {
		let FnArg::Typed(t) = a else { return Err(Error::new_spanned(a, "argument")) };
		let compact = has(&take(&mut t.attrs), "compact");
		let Pat::Ident(p) = &*t.pat else { return Err(Error::new_spanned(&t.pat, "named argument expected")) };
		args.push((compact, p.ident.clone(), (*t.ty).clone()));
	}
	Ok(Call { name, cfg: cfgs(&f.attrs), index, args, weight, feeless })
}

fn call_enum(g: &Gen, calls: &[Call]) -> TokenStream {
	let (bound, decl, args) = (g.bound(), g.decl(), g.args());
	let priv_ = quote!(::frame_support::__private);
	let variants = calls.iter().map(|c| {
		let (n, i, cfg) = (&c.name, c.index, &c.cfg);
		let fields = c.args.iter().map(|(compact, id, ty)| {
			let a = compact.then(|| quote!(#[codec(compact)]));
			quote!(#a #id: #ty)
		});
		quote!(#(#cfg)* #[codec(index = #i)] #n { #(#fields),* })
	});
	let dispatch = calls.iter().map(|c| {
		let (n, cfg) = (&c.name, &c.cfg);
		let ids: Vec<_> = c.args.iter().map(|a| &a.1).collect();
		quote!(#(#cfg)* Self::#n { #(#ids),* } => <Pallet<#args>>::#n(origin #(, #ids)*).map(::core::convert::Into::into).map_err(::core::convert::Into::into))
	});
	let infos = calls.iter().map(|c| {
		let (n, cfg, w) = (&c.name, &c.cfg, &c.weight);
		let ids: Vec<_> = c.args.iter().map(|a| &a.1).collect();
		quote!(#(#cfg)* #[allow(unused_variables)] Self::#n { #(#ids),* } => { let w = #w; ::frame_support::dispatch::IntoDispatchInfo::into_dispatch_info(w) })
	});
	let feeless = calls.iter().map(|c| {
		let (n, cfg) = (&c.name, &c.cfg);
		let ids: Vec<_> = c.args.iter().map(|a| &a.1).collect();
		let free = match &c.feeless {
			Some(f) => quote!((#f)(origin #(, #ids)*)),
			None => quote!(false),
		};
		quote!(#(#cfg)* #[allow(unused_variables)] Self::#n { #(#ids),* } => #free)
	});
	let names = calls.iter().map(|c| {
		let (n, s, cfg) = (&c.name, c.name.to_string(), &c.cfg);
		quote!(#(#cfg)* Self::#n { .. } => #s)
	});
	let all_names = calls.iter().map(|c| c.name.to_string());
	let ctors = calls.iter().map(|c| {
		let (n, cfg) = (&c.name, &c.cfg);
		let f = format_ident!("new_call_variant_{}", n);
		let ids: Vec<_> = c.args.iter().map(|a| &a.1).collect();
		let tys: Vec<_> = c.args.iter().map(|a| &a.2).collect();
		quote!(#(#cfg)* pub fn #f(#(#ids: #tys),*) -> Self { Self::#n { #(#ids),* } })
	});
	let ty_info = type_info(&quote!(<#bound>), &quote!(Call<#args>), &quote!(), "Call");
	quote!(
		#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::DebugNoBound, #priv_::codec::Encode, #priv_::codec::Decode)]
		#[codec(crate = #priv_::codec)]
		#[codec(encode_bound())]
		#[codec(decode_bound())]
		#[allow(non_camel_case_types)]
		pub enum Call<#decl> {
			#[doc(hidden)]
			#[codec(skip)]
			__Ignore(::core::marker::PhantomData<(#args)>, ::frame_support::Never),
			#(#variants),*
		}
		#ty_info
		impl<#bound> Call<#args> { #(#ctors)* }
		impl<#bound> ::frame_support::dispatch::GetDispatchInfo for Call<#args> {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
				match self { Self::__Ignore(_, n) => match *n {}, #(#infos),* }
			}
		}
		impl<#bound> ::frame_support::dispatch::CheckIfFeeless for Call<#args> {
			type Origin = ::frame_system::pallet_prelude::OriginFor<T>;
			#[allow(unused_variables)]
			fn is_feeless(&self, origin: &Self::Origin) -> bool {
				match self { Self::__Ignore(_, n) => match *n {}, #(#feeless),* }
			}
		}
		impl<#bound> ::frame_support::traits::GetCallName for Call<#args> {
			fn get_call_names() -> &'static [&'static str] { &[#(#all_names),*] }
			fn get_call_name(&self) -> &'static str {
				match self { Self::__Ignore(_, n) => match *n {}, #(#names),* }
			}
		}
		impl<#bound> ::frame_support::traits::UnfilteredDispatchable for Call<#args> {
			type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				let _ = &origin;
				match self { Self::__Ignore(_, n) => match n {}, #(#dispatch),* }
			}
		}
		impl<#bound> ::frame_support::dispatch::Callable<T> for Pallet<#args> {
			type RuntimeCall = Call<#args>;
		}
	)
}
