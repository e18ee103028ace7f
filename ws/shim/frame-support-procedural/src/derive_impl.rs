use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

/// Default associated types per prelude, as in the preludes of the real pallets.
fn table(key: &str) -> Option<Vec<(&'static str, &'static str)>> {
	let system_common = vec![
		("RuntimeEvent", "RuntimeEvent"),
		("RuntimeOrigin", "RuntimeOrigin"),
		("RuntimeCall", "RuntimeCall"),
		("PalletInfo", "PalletInfo"),
		("RuntimeTask", "RuntimeTask"),
		("Hash", "::frame_support::__private::H256"),
		("Hashing", "::frame_support::__private::BlakeTwo256"),
		("MaxConsumers", "::frame_support::traits::ConstU32<16>"),
		("OnNewAccount", "()"),
		("OnKilledAccount", "()"),
		("SystemWeightInfo", "()"),
		("ExtensionsWeightInfo", "()"),
		("SS58Prefix", "()"),
		("Version", "()"),
		("BlockWeights", "()"),
		("BlockLength", "()"),
		("DbWeight", "()"),
		("BaseCallFilter", "::frame_support::traits::Everything"),
		("OnSetCode", "()"),
		("SingleBlockMigrations", "()"),
		("MultiBlockMigrator", "()"),
		("PreInherents", "()"),
		("PostInherents", "()"),
		("PostTransactions", "()"),
	];
	Some(match key {
		"frame_system::config_preludes::TestDefaultConfig" => {
			let mut v = system_common;
			v.extend([
				("Nonce", "u32"),
				("AccountId", "u64"),
				("Lookup", "::frame_support::__private::IdentityLookup<Self::AccountId>"),
				("AccountData", "()"),
				("BlockHashCount", "::frame_support::traits::ConstU64<10>"),
			]);
			v
		}
		"frame_system::config_preludes::ParaChainDefaultConfig" => {
			let mut v = system_common;
			v.extend([
				("Nonce", "u32"),
				("AccountId", "::frame_support::__private::AccountId32"),
				("Lookup", "::frame_support::__private::AccountIdLookup<Self::AccountId, ()>"),
				("AccountData", "::frame_system::AccountInfo<Self::Nonce, ()>"),
				("BlockHashCount", "::frame_support::traits::ConstU32<256>"),
			]);
			v
		}
		"pallet_balances::config_preludes::TestDefaultConfig" => vec![
			("RuntimeEvent", "RuntimeEvent"),
			("RuntimeHoldReason", "RuntimeHoldReason"),
			("RuntimeFreezeReason", "RuntimeFreezeReason"),
			("Balance", "u64"),
			("ExistentialDeposit", "::frame_support::traits::ConstU64<1>"),
			("ReserveIdentifier", "()"),
			("FreezeIdentifier", "Self::RuntimeFreezeReason"),
			("DustRemoval", "()"),
			("MaxLocks", "::frame_support::traits::ConstU32<100>"),
			("MaxReserves", "::frame_support::traits::ConstU32<100>"),
			("MaxFreezes", "::frame_support::traits::VariantCountOf<Self::RuntimeFreezeReason>"),
			("WeightInfo", "()"),
			("DoneSlashHandler", "()"),
		],
		"pallet_assets::config_preludes::TestDefaultConfig" => vec![
			("RuntimeEvent", "RuntimeEvent"),
			("Balance", "u64"),
			("RemoveItemsLimit", "::frame_support::traits::ConstU32<5>"),
			("AssetId", "u32"),
			("AssetIdParameter", "u32"),
			("AssetDeposit", "::frame_support::traits::ConstU64<1>"),
			("AssetAccountDeposit", "::frame_support::traits::ConstU64<10>"),
			("MetadataDepositBase", "::frame_support::traits::ConstU64<1>"),
			("MetadataDepositPerByte", "::frame_support::traits::ConstU64<1>"),
			("ApprovalDeposit", "::frame_support::traits::ConstU64<1>"),
			("StringLimit", "::frame_support::traits::ConstU32<50>"),
			("Extra", "()"),
			("CallbackHandle", "()"),
			("WeightInfo", "()"),
			("Freezer", "()"),
			("RuntimeHoldReason", "RuntimeHoldReason"),
		],
		"pallet_sudo::config_preludes::TestDefaultConfig" => {
			vec![("WeightInfo", "()"), ("RuntimeEvent", "RuntimeEvent"), ("RuntimeCall", "RuntimeCall")]
		}
		_ => return None,
	})
}

pub fn expand(attr: TokenStream, mut im: ItemImpl) -> Result<TokenStream> {
	let mut key = String::new();
	for t in attr {
		if t.to_string() == "as" {
			break;
		}
		key.push_str(&t.to_string());
	}
	let key = key.trim_start_matches("::").to_string();
	let t = table(&key).ok_or_else(|| Error::new(proc_macro2::Span::call_site(), format!("no defaults known for `{key}`")))?;
	let have: Vec<String> = im
		.items
		.iter()
		.filter_map(|i| match i {
			ImplItem::Type(t) => Some(t.ident.to_string()),
			_ => None,
		})
		.collect();
	for (n, ty) in t {
		if !have.iter().any(|h| h == n) {
			let n = Ident::new(n, proc_macro2::Span::call_site());
			let ty: Type = parse_str(ty)?;
			im.items.push(parse_quote!(type #n = #ty;));
		}
	}
	Ok(quote!(#im))
}
