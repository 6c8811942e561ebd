use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote};
use syn::*;

struct P {
	name: Ident,
	index: u8,
	path: Path,
	/// `Rt` or `Rt, InstanceN`
	args: TokenStream,
	call: bool,
}

fn snake(s: &str) -> String {
	let mut out = String::new();
	for (i, c) in s.chars().enumerate() {
		if c.is_uppercase() && i > 0 {
			out.push('_');
		}
		out.extend(c.to_lowercase());
	}
	out
}

pub fn expand(item: TokenStream) -> Result<TokenStream> {
	let module: ItemMod = syn::parse2(item)?;
	let (_, items) = module.content.ok_or_else(|| Error::new(Span::call_site(), "inline module expected"))?;
	let mut rt = None;
	let mut ps: Vec<P> = vec![];
	for it in items {
		match it {
			Item::Struct(s) => rt = Some(s),
			Item::Type(t) => {
				let mut index = None;
				let mut call = true;
				for a in &t.attrs {
					let segs: Vec<_> = a.path().segments.iter().map(|s| s.ident.to_string()).collect();
					if segs.last().map(|s| s == "pallet_index").unwrap_or(false) {
						index = Some(a.parse_args::<LitInt>()?.base10_parse::<u8>()?);
					}
					if segs.last().map(|s| s == "disable_call").unwrap_or(false) {
						call = false;
					}
				}
				let Type::Path(mut p) = *t.ty else { return Err(Error::new_spanned(t.ident, "pallet path")) };
				let mut inst: Option<Ident> = None;
				let last = p.path.segments.last_mut().unwrap();
				if let PathArguments::AngleBracketed(a) = &last.arguments {
					let tys: Vec<_> = a.args.iter().collect();
					if let Some(GenericArgument::Type(Type::Path(i))) = tys.last() {
						let id = i.path.segments.last().unwrap().ident.clone();
						if id.to_string().starts_with("Instance") {
							inst = Some(id);
						}
					}
				}
				let is_pallet = last.ident == "Pallet";
				last.arguments = PathArguments::None;
				if is_pallet {
					let segs: Vec<_> = p.path.segments.iter().take(p.path.segments.len() - 1).cloned().collect();
					p.path.segments = segs.into_iter().collect();
				}
				let index = index.unwrap_or_else(|| ps.last().map_or(0, |p: &P| p.index + 1));
				ps.push(P {
					name: t.ident,
					index,
					path: p.path,
					args: inst.map(|i| quote!(, ::frame_support::instances::#i)).unwrap_or_default(),
					call,
				});
			}
			_ => {}
		}
	}
	let rt = rt.ok_or_else(|| Error::new(Span::call_site(), "runtime struct"))?;
	let (vis, r) = (&rt.vis, &rt.ident);
	for p in &mut ps {
		let a = p.args.clone();
		p.args = quote!(#r #a);
	}
	let priv_ = quote!(::frame_support::__private);
	let name: Vec<_> = ps.iter().map(|p| &p.name).collect();
	let index: Vec<_> = ps.iter().map(|p| p.index).collect();
	let uindex: Vec<_> = ps.iter().map(|p| p.index as usize).collect();
	let sname: Vec<_> = ps.iter().map(|p| p.name.to_string()).collect();
	let part = |n: &str| -> Vec<TokenStream> {
		let n = format_ident!("{}", n);
		ps.iter()
			.map(|p| {
				let (path, args) = (&p.path, &p.args);
				quote!(#path::__parts::#n<#args>)
			})
			.collect()
	};
	let (pallets, events, origins, holds, freezes, geneses) =
		(part("Pallet"), part("Event"), part("Origin"), part("HoldReason"), part("FreezeReason"), part("GenesisConfig"));
	let all_calls = part("Call");
	let keep: Vec<usize> = ps.iter().enumerate().filter(|(_, p)| p.call).map(|(i, _)| i).collect();
	let cname: Vec<_> = keep.iter().map(|i| &ps[*i].name).collect();
	let cindex: Vec<_> = keep.iter().map(|i| ps[*i].index).collect();
	let csname: Vec<_> = keep.iter().map(|i| ps[*i].name.to_string()).collect();
	let calls: Vec<_> = keep.iter().map(|i| &all_calls[*i]).collect();
	let config: Vec<_> = ps.iter().map(|p| format_ident!("{}Config", p.name)).collect();
	let field: Vec<_> = ps.iter().map(|p| Ident::new(&snake(&p.name.to_string()), Span::call_site())).collect();
	// the pallets that declare a genesis configuration
	const GENESIS: &[&str] = &["frame_system", "pallet_balances", "pallet_assets", "pallet_sudo"];
	let gkeep: Vec<usize> =
		(0..ps.len()).filter(|i| ps[*i].path.segments.last().map_or(false, |s| GENESIS.contains(&s.ident.to_string().as_str()))).collect();
	let gfield: Vec<_> = gkeep.iter().map(|i| field[*i].clone()).collect();
	let gconfig: Vec<_> = gkeep.iter().map(|i| config[*i].clone()).collect();
	// frame_system is the pallet whose origin is RawOrigin; it gets the `system` variant only.
	let rest: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].name != "System").collect();
	let oname: Vec<_> = rest.iter().map(|i| name[*i]).collect();
	let oindex: Vec<_> = rest.iter().map(|i| index[*i]).collect();
	let oty: Vec<_> = rest.iter().map(|i| &origins[*i]).collect();
	let account = quote!(<#r as ::frame_system::Config>::AccountId);
	let bn = quote!(::frame_system::pallet_prelude::BlockNumberFor<#r>);
	let no_sys: Vec<_> = rest.iter().map(|i| &pallets[*i]).collect();

	let info = |t: &str| -> TokenStream {
		let id = format_ident!("{}", t);
		quote!(
			impl #priv_::scale_info::TypeInfo for #id {
				type Identity = Self;
				fn type_info() -> #priv_::scale_info::Type { #priv_::opaque_type_info(#t, "runtime") }
			}
		)
	};
	let (i_ev, i_call, i_orig, i_hold, i_freeze, i_rt) =
		(info("RuntimeEvent"), info("RuntimeCall"), info("OriginCaller"), info("RuntimeHoldReason"), info("RuntimeFreezeReason"), info(&r.to_string()));
	let reason = |t: &str, tys: &Vec<TokenStream>, i: &TokenStream| -> TokenStream {
		let id = format_ident!("{}", t);
		quote!(
			#[derive(Copy, Clone, Eq, PartialEq, Debug, #priv_::codec::Encode, #priv_::codec::Decode, #priv_::codec::MaxEncodedLen)]
			#[codec(crate = #priv_::codec)]
			pub enum #id { #( #[codec(index = #index)] #name(#tys), )* }
			#i
			#( impl ::core::convert::From<#tys> for #id { fn from(x: #tys) -> Self { #id::#name(x) } } )*
			impl ::frame_support::traits::VariantCount for #id {
				const VARIANT_COUNT: u32 = 0 #( + <#tys as ::frame_support::traits::VariantCount>::VARIANT_COUNT )*;
			}
		)
	};
	let holds = reason("RuntimeHoldReason", &holds, &i_hold);
	let freezes = reason("RuntimeFreezeReason", &freezes, &i_freeze);

	Ok(quote!(
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
		#vis struct #r;
		#i_rt
		impl ::frame_support::sp_runtime::traits::GetRuntimeBlockType for #r {
			type RuntimeBlock = <#r as ::frame_system::Config>::Block;
		}
		#( pub type #name = #pallets; )*
		#( pub type #config = #geneses; )*
		#[derive(Clone, PartialEq, Eq, Debug, #priv_::codec::Encode, #priv_::codec::Decode)]
		#[codec(crate = #priv_::codec)]
		pub enum RuntimeTask {}
		impl ::frame_support::traits::tasks::Task for RuntimeTask {}

		// ---- events ----
		#[derive(Clone, PartialEq, Eq, Debug, #priv_::codec::Encode, #priv_::codec::Decode)]
		#[codec(crate = #priv_::codec)]
		pub enum RuntimeEvent { #( #[codec(index = #index)] #name(#events), )* }
		#i_ev
		#(
			impl ::core::convert::From<#events> for RuntimeEvent { fn from(x: #events) -> Self { RuntimeEvent::#name(x) } }
			impl ::core::convert::TryInto<#events> for RuntimeEvent {
				type Error = ();
				#[allow(unreachable_patterns)]
				fn try_into(self) -> ::core::result::Result<#events, ()> { match self { RuntimeEvent::#name(e) => Ok(e), _ => Err(()) } }
			}
		)*

		// ---- calls ----
		#[derive(Clone, PartialEq, Eq, Debug, #priv_::codec::Encode, #priv_::codec::Decode)]
		#[codec(crate = #priv_::codec)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeCall { #( #[codec(index = #cindex)] #cname(#calls), )* }
		#i_call
		#(
			impl ::core::convert::From<#calls> for RuntimeCall { fn from(x: #calls) -> Self { RuntimeCall::#cname(x) } }
			impl ::frame_support::traits::IsSubType<#calls> for RuntimeCall {
				#[allow(unreachable_patterns)]
				fn is_sub_type(&self) -> Option<&#calls> { match self { RuntimeCall::#cname(c) => Some(c), _ => None } }
			}
		)*
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
				match self { #( RuntimeCall::#cname(c) => ::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c), )* }
			}
		}
		impl ::frame_support::dispatch::CheckIfFeeless for RuntimeCall {
			type Origin = RuntimeOrigin;
			fn is_feeless(&self, origin: &RuntimeOrigin) -> bool {
				match self { #( RuntimeCall::#cname(c) => ::frame_support::dispatch::CheckIfFeeless::is_feeless(c, origin), )* }
			}
		}
		impl ::frame_support::traits::GetCallMetadata for RuntimeCall {
			fn get_call_metadata(&self) -> ::frame_support::traits::CallMetadata {
				match self { #( RuntimeCall::#cname(c) => ::frame_support::traits::CallMetadata {
					pallet_name: #csname,
					function_name: ::frame_support::traits::GetCallName::get_call_name(c),
				}, )* }
			}
		}
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #( RuntimeCall::#cname(c) => ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin), )* }
			}
		}
		impl ::frame_support::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as ::frame_support::traits::OriginTrait>::filter_call(&origin, &self) {
					return ::core::result::Result::Err(::frame_system::Error::<#r>::CallFiltered.into());
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}

		// ---- origins ----
		#[derive(Clone, PartialEq, Eq, Debug, #priv_::codec::Encode, #priv_::codec::Decode, #priv_::codec::MaxEncodedLen)]
		#[codec(crate = #priv_::codec)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller {
			#[codec(index = 0)]
			system(::frame_system::RawOrigin<#account>),
			#( #[codec(index = #oindex)] #oname(#oty), )*
			#[codec(index = 255)]
			Void(::frame_support::Void),
		}
		#i_orig
		impl ::frame_support::traits::CallerTrait<#account> for OriginCaller {
			fn into_system(self) -> Option<::frame_system::RawOrigin<#account>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<#account>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
		}
		impl ::core::convert::From<::frame_system::RawOrigin<#account>> for OriginCaller { fn from(x: ::frame_system::RawOrigin<#account>) -> Self { OriginCaller::system(x) } }
		impl ::core::convert::TryFrom<OriginCaller> for ::frame_system::RawOrigin<#account> {
			type Error = OriginCaller;
			fn try_from(x: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { match x { OriginCaller::system(l) => Ok(l), x => Err(x) } }
		}
		impl ::core::convert::From<::frame_system::RawOrigin<#account>> for RuntimeOrigin {
			fn from(x: ::frame_system::RawOrigin<#account>) -> Self { OriginCaller::system(x).into() }
		}
		impl ::core::convert::From<RuntimeOrigin> for ::core::result::Result<::frame_system::RawOrigin<#account>, RuntimeOrigin> {
			fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::system(l) => Ok(l), _ => Err(o) } }
		}
		#(
			impl ::core::convert::From<#oty> for OriginCaller { fn from(x: #oty) -> Self { OriginCaller::#oname(x) } }
			impl ::core::convert::TryFrom<OriginCaller> for #oty {
				type Error = OriginCaller;
				fn try_from(x: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { match x { OriginCaller::#oname(l) => Ok(l), x => Err(x) } }
			}
			impl ::core::convert::From<#oty> for RuntimeOrigin { fn from(x: #oty) -> Self { OriginCaller::#oname(x).into() } }
			impl ::core::convert::From<RuntimeOrigin> for ::core::result::Result<#oty, RuntimeOrigin> {
				fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::#oname(l) => Ok(l), _ => Err(o) } }
			}
		)*
		#[derive(Clone)]
		pub struct RuntimeOrigin {
			pub caller: OriginCaller,
			filter: ::std::rc::Rc<dyn Fn(&RuntimeCall) -> bool>,
		}
		impl ::core::fmt::Debug for RuntimeOrigin {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() }
		}
		impl RuntimeOrigin {
			pub fn none() -> Self { <Self as ::frame_support::traits::OriginTrait>::none() }
			pub fn root() -> Self { <Self as ::frame_support::traits::OriginTrait>::root() }
			pub fn signed(by: #account) -> Self { <Self as ::frame_support::traits::OriginTrait>::signed(by) }
		}
		impl ::core::convert::From<OriginCaller> for RuntimeOrigin {
			fn from(caller: OriginCaller) -> Self {
				use ::frame_support::traits::OriginTrait;
				let root = matches!(caller, OriginCaller::system(::frame_system::RawOrigin::Root));
				let mut o = RuntimeOrigin { caller, filter: ::std::rc::Rc::new(|_| true) };
				// the root origin is not filtered
				if !root { o.reset_filter(); }
				o
			}
		}
		impl ::core::convert::From<::core::option::Option<#account>> for RuntimeOrigin {
			fn from(x: ::core::option::Option<#account>) -> Self { ::frame_system::RawOrigin::from(x).into() }
		}
		impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = <#r as ::frame_system::Config>::RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = #account;
			fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = ::std::rc::Rc::new(move |c| f(c) && filter(c));
			}
			fn reset_filter(&mut self) {
				self.filter = ::std::rc::Rc::new(<<#r as ::frame_system::Config>::BaseCallFilter as ::frame_support::traits::Contains<RuntimeCall>>::contains);
			}
			fn set_caller(&mut self, caller: OriginCaller) { self.caller = caller; }
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn filter_call(&self, call: &Self::Call) -> bool {
				match self.caller {
					OriginCaller::system(::frame_system::RawOrigin::Root) => true,
					_ => (self.filter)(call),
				}
			}
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(OriginCaller) -> ::core::result::Result<R, OriginCaller>) -> ::core::result::Result<R, Self> {
				match f(self.caller) {
					Ok(r) => Ok(r),
					Err(caller) => { self.caller = caller; Err(self) }
				}
			}
			fn none() -> Self { ::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
			fn signed(by: #account) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
		}

		// ---- reasons ----
		#holds
		#freezes

		// ---- pallet info and hooks ----
		pub struct PalletInfo;
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> {
				let t = ::core::any::TypeId::of::<P>();
				#( if t == ::core::any::TypeId::of::<#pallets>() { return Some(#uindex); } )*
				None
			}
			fn name<P: 'static>() -> Option<&'static str> {
				let t = ::core::any::TypeId::of::<P>();
				#( if t == ::core::any::TypeId::of::<#pallets>() { return Some(#sname); } )*
				None
			}
		}
		pub struct AllPalletsWithSystem;
		pub struct AllPalletsWithoutSystem;
		impl ::frame_support::traits::OnInitialize<#bn> for AllPalletsWithSystem {
			fn on_initialize(n: #bn) -> ::frame_support::weights::Weight {
				let mut w = ::frame_support::weights::Weight::zero();
				#( w = w.saturating_add(<#pallets as ::frame_support::traits::OnInitialize<#bn>>::on_initialize(n)); )*
				w
			}
		}
		impl ::frame_support::traits::OnFinalize<#bn> for AllPalletsWithSystem {
			fn on_finalize(n: #bn) { #( <#pallets as ::frame_support::traits::OnFinalize<#bn>>::on_finalize(n); )* }
		}
		impl ::frame_support::traits::OnRuntimeUpgrade for AllPalletsWithSystem {
			fn on_runtime_upgrade() -> ::frame_support::weights::Weight {
				let mut w = ::frame_support::weights::Weight::zero();
				#( w = w.saturating_add(<#pallets as ::frame_support::traits::OnRuntimeUpgrade>::on_runtime_upgrade()); )*
				w
			}
		}
		impl ::frame_support::traits::OnInitialize<#bn> for AllPalletsWithoutSystem {
			fn on_initialize(n: #bn) -> ::frame_support::weights::Weight {
				let mut w = ::frame_support::weights::Weight::zero();
				#( w = w.saturating_add(<#no_sys as ::frame_support::traits::OnInitialize<#bn>>::on_initialize(n)); )*
				w
			}
		}
		impl ::frame_support::traits::OnFinalize<#bn> for AllPalletsWithoutSystem {
			fn on_finalize(n: #bn) { #( <#no_sys as ::frame_support::traits::OnFinalize<#bn>>::on_finalize(n); )* }
		}

		// ---- genesis ----
		#[derive(Default)]
		pub struct RuntimeGenesisConfig { #( pub #gfield: #gconfig, )* }
		impl ::frame_support::sp_runtime::BuildStorage for RuntimeGenesisConfig {
			fn assimilate_storage(&self, storage: &mut ::frame_support::sp_runtime::Storage) -> ::core::result::Result<(), ::std::string::String> {
				#( ::frame_support::sp_runtime::BuildStorage::assimilate_storage(&self.#gfield, storage)?; )*
				Ok(())
			}
		}
	))
}
