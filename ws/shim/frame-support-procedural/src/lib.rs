//! The parts of FRAME's macros the code under test needs. Call bodies run in a storage layer that is
//! rolled back on error, storage aliases get a prefix from the pallet's name in the runtime, and the
//! aggregate types are assembled from the parts every pallet declares.
mod derive_impl;
mod pallet;
mod runtime;

use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::expand(syn::parse_macro_input!(item as syn::ItemMod)).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_attribute]
pub fn runtime(_attr: TokenStream, item: TokenStream) -> TokenStream {
	runtime::expand(syn::parse_macro_input!(item as syn::ItemMod)).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_attribute]
pub fn derive_impl(attr: TokenStream, item: TokenStream) -> TokenStream {
	derive_impl::expand(attr.into(), syn::parse_macro_input!(item as syn::ItemImpl)).unwrap_or_else(|e| e.to_compile_error()).into()
}

/// Runs the function in a storage layer.
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let mut f = syn::parse_macro_input!(item as syn::ItemFn);
	let body = f.block.clone();
	f.block = Box::new(syn::parse_quote!({ ::frame_support::storage::with_storage_layer(move || #body) }));
	quote::quote!(#f).into()
}

/// Leaves the function as it is: calls run inside a layer anyway.
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}

/// `PerThing`-free marker derives.
#[proc_macro_derive(PalletError)]
pub fn pallet_error(_: TokenStream) -> TokenStream {
	TokenStream::new()
}

macro_rules! no_bound {
	($name:ident, $fn:ident, $tr:expr) => {
		#[proc_macro_derive($name)]
		pub fn $fn(item: TokenStream) -> TokenStream {
			let d = syn::parse_macro_input!(item as syn::DeriveInput);
			pallet::no_bound(&d, $tr).into()
		}
	};
}
no_bound!(CloneNoBound, clone_no_bound, "Clone");
no_bound!(PartialEqNoBound, partial_eq_no_bound, "PartialEq");
no_bound!(EqNoBound, eq_no_bound, "Eq");
no_bound!(DebugNoBound, debug_no_bound, "Debug");
no_bound!(RuntimeDebugNoBound, runtime_debug_no_bound, "Debug");
no_bound!(DefaultNoBound, default_no_bound, "Default");

#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(item: TokenStream) -> TokenStream {
	let d = syn::parse_macro_input!(item as syn::DeriveInput);
	pallet::no_bound(&d, "DebugBound").into()
}

/// Marks the runtime's version; nothing to do here.
#[proc_macro_attribute]
pub fn runtime_version(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}

/// `composite_authenticator!(pub Name<Authority> { A, B })`: the names it declares.
#[proc_macro]
pub fn composite_authenticator(item: TokenStream) -> TokenStream {
	use quote::{format_ident, quote};
	struct In(syn::Visibility, syn::Ident, syn::Type, Vec<syn::Type>);
	impl syn::parse::Parse for In {
		fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
			let (vis, name) = (i.parse()?, i.parse()?);
			i.parse::<syn::Token![<]>()?;
			let auth = i.parse()?;
			i.parse::<syn::Token![>]>()?;
			let c;
			syn::braced!(c in i);
			let list = c.parse_terminated(syn::Type::parse, syn::Token![,])?;
			Ok(In(vis, name, auth, list.into_iter().collect()))
		}
	}
	let In(vis, name, auth, list) = syn::parse_macro_input!(item as In);
	let (a, d, c) = (format_ident!("{}Authenticator", name), format_ident!("{}DeviceAttestation", name), format_ident!("{}Credential", name));
	quote! {
		#[allow(unused_imports)]
		use ::fc_traits_authn::HashedUserId;
		#vis type #a = ::fc_traits_authn::Composite<#auth, (#(#list,)*)>;
		#vis type #d = ::std::vec::Vec<u8>;
		#vis type #c = ::std::vec::Vec<u8>;
	}
	.into()
}

/// Keeps what the runtime answers to some questions from outside as functions of `served`; other interfaces
/// are dropped.
#[proc_macro]
pub fn impl_runtime_apis(item: TokenStream) -> TokenStream {
	use quote::quote;
	let file = syn::parse_macro_input!(item as syn::File);
	// (interface, question, what stands for it where the runtime does not serve it)
	let kept = [
		("FungiblesApi", "query_account_balances", quote! { pub fn query_account_balances(_: AccountId) -> Result<::xcm::VersionedAssets, ()> }),
		("AuraApi", "slot_duration", quote! { pub fn slot_duration() -> ::sp_consensus_aura::SlotDuration }),
		("AccountNonceApi", "account_nonce", quote! { pub fn account_nonce(_: AccountId) -> Nonce }),
	];
	let fns = kept.iter().map(|(interface, question, absent)| {
		for i in &file.items {
			let syn::Item::Impl(i) = i else { continue };
			if !i.trait_.as_ref().and_then(|t| t.1.segments.last()).is_some_and(|s| s.ident == interface) {
				continue;
			}
			for f in &i.items {
				let syn::ImplItem::Fn(f) = f else { continue };
				if f.sig.ident == question {
					return quote! { pub #f };
				}
			}
		}
		quote! { #absent { panic!("not served") } }
	});
	quote! {
		pub struct RuntimeApi;
		pub const RUNTIME_API_VERSIONS: ::std::borrow::Cow<'static, [([u8; 8], u32)]> = ::std::borrow::Cow::Borrowed(&[]);
		pub mod served {
			#[allow(unused_imports)]
			use super::*;
			#(#fns)*
		}
	}
	.into()
}

/// Command lines: a text is the next word, an optional one may be missing, a truth value is a switch.
#[proc_macro_derive(ClapParser, attributes(arg, command, clap))]
pub fn clap_parser(item: TokenStream) -> TokenStream {
	use quote::quote;
	let d = syn::parse_macro_input!(item as syn::DeriveInput);
	let name = &d.ident;
	let syn::Data::Struct(s) = &d.data else { return quote! { compile_error!("only structs"); }.into() };
	let (mut get, mut names) = (vec![], vec![]);
	for f in &s.fields {
		let id = f.ident.as_ref().expect("named");
		let ty = f.ty.to_token_stream_string();
		let switch = format!("--{}", id.to_string().replace('_', "-"));
		let attrs = f.attrs.iter().filter(|a| a.path().is_ident("arg")).map(|a| a.meta.to_token_stream_string()).collect::<String>();
		names.push(quote! { #id });
		get.push(if ty == "bool" {
			quote! { let #id = take_switch(#switch); }
		} else if attrs.contains("long") {
			quote! { compile_error!("switches with values are not known here"); }
		} else {
			quote! { let #id = take_word().ok_or_else(|| format!("the following required arguments were not provided: {}", stringify!(#id)))?.into(); }
		});
	}
	quote! {
		impl ::clap::Parser for #name {
			fn try_parse_from(args: impl IntoIterator<Item = String>) -> Result<Self, String> {
				let rest = ::std::cell::RefCell::new(args.into_iter().skip(1).collect::<Vec<String>>());
				#[allow(unused_variables)]
				let take_switch = |n: &str| {
					let mut r = rest.borrow_mut();
					let at = r.iter().position(|w| w == n);
					at.map(|i| r.remove(i)).is_some()
				};
				#[allow(unused_variables)]
				let take_word = || {
					let mut r = rest.borrow_mut();
					let at = r.iter().position(|w| !w.starts_with('-'));
					at.map(|i| r.remove(i))
				};
				#(#get)*
				if let Some(w) = rest.borrow().first() {
					return Err(format!("unexpected argument '{w}' found"));
				}
				Ok(Self { #(#names),* })
			}
		}
	}
	.into()
}
trait TokenText {
	fn to_token_stream_string(&self) -> String;
}
impl<T: quote::ToTokens> TokenText for T {
	fn to_token_stream_string(&self) -> String {
		self.to_token_stream().to_string()
	}
}
/// Parts of a chain's description; nothing to do here.
#[proc_macro_derive(ChainSpecExtension, attributes(forks))]
pub fn chain_spec_extension(_: TokenStream) -> TokenStream {
	TokenStream::new()
}
#[proc_macro_derive(ChainSpecGroup)]
pub fn chain_spec_group(_: TokenStream) -> TokenStream {
	TokenStream::new()
}
