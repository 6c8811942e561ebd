//! `#[derive_impl(path::Prelude as Trait)]`: adds the associated types an impl leaves out,
//! from tables for the pallets the verified code configures this way.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use syn::*;

fn table(path: &str) -> Option<&'static str> {
	Some(match path {
		p if p.contains("frame_system") && p.contains("TestDefaultConfig") => concat!(
			"type Nonce = u32; type Hash = ::frame_support::sp_core::H256; type Hashing = ::frame_support::sp_runtime::traits::BlakeTwo256;",
			"type AccountId = u64; type Lookup = ::frame_support::sp_runtime::traits::IdentityLookup<Self::AccountId>;",
			"type MaxConsumers = ::frame_support::traits::ConstU32<16>; type AccountData = (); type OnNewAccount = (); type OnKilledAccount = ();",
			"type SystemWeightInfo = (); type SS58Prefix = (); type Version = (); type BlockWeights = (); type BlockLength = (); type DbWeight = ();",
			"type RuntimeEvent = RuntimeEvent; type RuntimeOrigin = RuntimeOrigin; type RuntimeCall = RuntimeCall; type PalletInfo = PalletInfo; type RuntimeTask = RuntimeTask;",
			"type BaseCallFilter = ::frame_support::traits::Everything; type BlockHashCount = ::frame_support::traits::ConstUint<10>; type OnSetCode = ();",
			"type SingleBlockMigrations = (); type MultiBlockMigrator = (); type PreInherents = (); type PostInherents = (); type PostTransactions = ();"
		),
		p if p.contains("frame_system") && p.contains("ChainDefaultConfig") => concat!(
			"type Nonce = u32; type Hash = ::frame_support::sp_core::H256; type Hashing = ::frame_support::sp_runtime::traits::BlakeTwo256;",
			"type AccountId = ::frame_support::sp_runtime::AccountId32; type Lookup = ::frame_support::sp_runtime::traits::AccountIdLookup<Self::AccountId, ()>;",
			"type MaxConsumers = ::frame_support::traits::ConstU32<128>; type AccountData = (); type OnNewAccount = (); type OnKilledAccount = ();",
			"type SystemWeightInfo = (); type SS58Prefix = (); type Version = (); type BlockWeights = (); type BlockLength = (); type DbWeight = ();",
			"type RuntimeEvent = RuntimeEvent; type RuntimeOrigin = RuntimeOrigin; type RuntimeCall = RuntimeCall; type PalletInfo = PalletInfo; type RuntimeTask = RuntimeTask;",
			"type BaseCallFilter = ::frame_support::traits::Everything; type BlockHashCount = ::frame_support::traits::ConstUint<256>; type OnSetCode = ();",
			"type SingleBlockMigrations = (); type MultiBlockMigrator = (); type PreInherents = (); type PostInherents = (); type PostTransactions = ();"
		),
		p if p.contains("pallet_balances") => concat!(
			"type RuntimeEvent = RuntimeEvent; type RuntimeHoldReason = RuntimeHoldReason; type RuntimeFreezeReason = RuntimeFreezeReason;",
			"type Balance = u64; type ExistentialDeposit = ::frame_support::traits::ConstU64<1>; type ReserveIdentifier = (); type FreezeIdentifier = RuntimeFreezeReason;",
			"type DustRemoval = (); type MaxLocks = ::frame_support::traits::ConstU32<100>; type MaxReserves = ::frame_support::traits::ConstU32<100>;",
			"type MaxFreezes = ::frame_support::traits::VariantCountOf<RuntimeFreezeReason>; type WeightInfo = ();"
		),
		p if p.contains("pallet_assets") => concat!(
			"type RuntimeEvent = RuntimeEvent; type Balance = u64; type RemoveItemsLimit = ::frame_support::traits::ConstU32<5>; type AssetId = u32; type AssetIdParameter = u32;",
			"type AssetDeposit = ::frame_support::traits::ConstU64<1>; type AssetAccountDeposit = ::frame_support::traits::ConstU64<10>;",
			"type MetadataDepositBase = ::frame_support::traits::ConstU64<1>; type MetadataDepositPerByte = ::frame_support::traits::ConstU64<1>;",
			"type ApprovalDeposit = ::frame_support::traits::ConstU64<1>; type StringLimit = ::frame_support::traits::ConstU32<50>; type Extra = (); type CallbackHandle = (); type WeightInfo = ();",
			"type Freezer = (); type RuntimeHoldReason = RuntimeHoldReason; type MaxHolds = ::frame_support::traits::ConstU32<500>;"
		),
		p if p.contains("pallet_sudo") => "type WeightInfo = (); type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall;",
		_ => return None,
	})
}

pub fn expand(attr: TokenStream, item: TokenStream) -> Result<TokenStream> {
	let mut imp: ItemImpl = syn::parse2(item)?;
	let path = attr.to_string();
	let Some(t) = table(&path) else {
		return Err(Error::new_spanned(attr, "no default configuration known for this path"));
	};
	let defaults: ItemImpl = syn::parse_str(&format!("impl X for Y {{ {t} }}"))?;
	let have: Vec<String> = imp
		.items
		.iter()
		.filter_map(|i| match i {
			ImplItem::Type(t) => Some(t.ident.to_string()),
			_ => None,
		})
		.collect();
	for d in defaults.items {
		if let ImplItem::Type(t) = &d {
			if !have.contains(&t.ident.to_string()) {
				imp.items.push(d);
			}
		}
	}
	Ok(quote!(#imp).into_token_stream())
}
