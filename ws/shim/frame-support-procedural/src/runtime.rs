use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;

struct P {
	name: Ident,
	krate: Path,
	krate_name: String,
	instance: Option<Ident>,
	index: u8,
	vis: Visibility,
}

fn snake(s: &str) -> String {
	let mut o = String::new();
	for (i, c) in s.chars().enumerate() {
		if c.is_uppercase() {
			if i > 0 {
				o.push('_');
			}
			o.extend(c.to_lowercase());
		} else {
			o.push(c);
		}
	}
	o
}

pub fn expand(m: ItemMod) -> Result<TokenStream> {
	let (_, items) = m.content.ok_or_else(|| Error::new(m.ident.span(), "inline module expected"))?;
	let mut rt = None;
	let mut rt_vis = None;
	let mut ps: Vec<P> = vec![];
	for i in items {
		match i {
			Item::Struct(s) => {
				rt = Some(s.ident);
				rt_vis = Some(s.vis);
			}
			Item::Type(t) => {
				let mut index = None;
				for a in &t.attrs {
					let p = a.path();
					if p.segments.len() == 2 && p.segments[1].ident == "pallet_index" {
						let l: LitInt = a.parse_args()?;
						index = Some(l.base10_parse()?);
					}
				}
				let Type::Path(tp) = *t.ty else { return Err(Error::new(t.ident.span(), "path expected")) };
				let mut path = tp.path.clone();
				let mut instance = None;
				let last = path.segments.last_mut().unwrap();
				if let PathArguments::AngleBracketed(a) = &last.arguments {
					if let Some(GenericArgument::Type(Type::Path(p))) = a.args.first() {
						instance = Some(p.path.segments.last().unwrap().ident.clone());
					}
				}
				last.arguments = PathArguments::None;
				let krate_name = path.segments.last().unwrap().ident.to_string();
				ps.push(P { name: t.ident, krate: path, krate_name, instance, index: index.expect("pallet index"), vis: t.vis });
			}
			_ => {}
		}
	}
	let rt = rt.expect("runtime struct");
	let rt_vis = rt_vis.unwrap();
	let pallet_ty = |p: &P| {
		let k = &p.krate;
		match &p.instance {
			Some(i) => quote!(#k::Pallet<#rt, #k::#i>),
			None => quote!(#k::Pallet<#rt>),
		}
	};
	let names: Vec<_> = ps.iter().map(|p| p.name.clone()).collect();
	let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
	let idx: Vec<u8> = ps.iter().map(|p| p.index).collect();
	let idx_us: Vec<usize> = idx.iter().map(|i| *i as usize).collect();
	let tys: Vec<_> = ps.iter().map(pallet_ty).collect();
	let vis: Vec<_> = ps.iter().map(|p| p.vis.clone()).collect();
	let part_ty = |p: &P, part: &str| {
		let k = &p.krate;
		let part = format_ident!("__Part{}", part);
		match &p.instance {
			Some(i) => quote!(#k::#part<#rt, #k::#i>),
			None => quote!(#k::#part<#rt>),
		}
	};
	let part = |k: &str| -> Vec<TokenStream> { ps.iter().map(|p| part_ty(p, k)).collect() };
	let (calls, events, holds, freezes) = (part("Call"), part("Event"), part("HoldReason"), part("FreezeReason"));
	// system's own origin is the variant `system`
	let non_system: Vec<&P> = ps.iter().filter(|p| p.krate_name != "frame_system").collect();
	let o_names: Vec<_> = non_system.iter().map(|p| p.name.clone()).collect();
	let o_idx: Vec<u8> = non_system.iter().map(|p| p.index).collect();
	let o_tys: Vec<_> = non_system
		.iter()
		.map(|p| part_ty(p, "Origin"))
		.collect();
	let sys_idx = ps.iter().find(|p| p.krate_name == "frame_system").map(|p| p.index).unwrap_or(0);

	let gen_set = ["frame_system", "pallet_balances", "pallet_assets", "pallet_sudo"];
	let gens: Vec<&P> = ps.iter().filter(|p| gen_set.contains(&p.krate_name.as_str())).collect();
	let g_names: Vec<_> = gens.iter().map(|p| format_ident!("{}", snake(&p.name.to_string()))).collect();
	let g_tys: Vec<_> = gens
		.iter()
		.map(|p| {
			let k = &p.krate;
			match &p.instance {
				Some(i) => quote!(#k::GenesisConfig<#rt, #k::#i>),
				None => quote!(#k::GenesisConfig<#rt>),
			}
		})
		.collect();

	let g_alias: Vec<_> = gens.iter().map(|p| format_ident!("{}Config", p.name)).collect();

	let agg_derive = quote! {
		#[derive(Clone, PartialEq, Eq, Debug, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
		#[codec(crate = ::frame_support::__private::codec)]
		#[allow(non_camel_case_types, clippy::large_enum_variant)]
	};
	let type_info = |n: &str| {
		let n = format_ident!("{}", n);
		quote! {
			impl ::frame_support::__private::scale_info::TypeInfo for #n {
				type Identity = Self;
				fn type_info() -> ::frame_support::__private::scale_info::Type { ::frame_support::__private::scale_info::TypeDefPrimitive::U8.into() }
			}
		}
	};
	let (ti_call, ti_event, ti_oc, ti_h, ti_f) =
		(type_info("RuntimeCall"), type_info("RuntimeEvent"), type_info("OriginCaller"), type_info("RuntimeHoldReason"), type_info("RuntimeFreezeReason"));
	let reason = |name: &str, parts: &Vec<TokenStream>, ti: TokenStream| {
		let n = format_ident!("{}", name);
		quote! {
			#[derive(Copy, Clone, PartialEq, Eq, Debug, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode, ::frame_support::__private::codec::MaxEncodedLen)]
			#[codec(crate = ::frame_support::__private::codec)]
			#rt_vis enum #n { #( #[codec(index = #idx)] #names(#parts), )* }
			#ti
			impl ::frame_support::traits::VariantCount for #n {
				const VARIANT_COUNT: u32 = 0 #( + <#parts as ::frame_support::traits::VariantCount>::VARIANT_COUNT )*;
			}
			#( impl ::core::convert::From<#parts> for #n { fn from(x: #parts) -> Self { #n::#names(x) } } )*
		}
	};
	let holds_ts = reason("RuntimeHoldReason", &holds, ti_h);
	let freezes_ts = reason("RuntimeFreezeReason", &freezes, ti_f);

	Ok(quote! {
		#[derive(Clone, Copy, PartialEq, Eq, Debug, ::frame_support::__private::scale_info::TypeInfo)]
		#[scale_info(crate = ::frame_support::__private::scale_info)]
		#rt_vis struct #rt;
		impl ::frame_support::traits::GetRuntimeBlockType for #rt { type RuntimeBlock = <Self as ::frame_system::Config>::Block; }

		#( #vis type #names = #tys; )*
		#rt_vis type AllPalletsWithSystem = ( #(#names,)* );
		#rt_vis type AllPalletsWithoutSystem = ();

		#rt_vis struct PalletInfo;
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> {
				let t = ::core::any::TypeId::of::<P>();
				#( if t == ::core::any::TypeId::of::<#names>() { return Some(#idx_us) } )*
				None
			}
			fn name<P: 'static>() -> Option<&'static str> {
				let t = ::core::any::TypeId::of::<P>();
				#( if t == ::core::any::TypeId::of::<#names>() { return Some(#strs) } )*
				None
			}
		}

		#agg_derive
		#rt_vis enum RuntimeCall { #( #[codec(index = #idx)] #names(#calls), )* }
		#ti_call
		#(
			impl ::core::convert::From<#calls> for RuntimeCall { fn from(c: #calls) -> Self { RuntimeCall::#names(c) } }
			impl ::frame_support::traits::IsSubType<#calls> for RuntimeCall {
				#[allow(unreachable_patterns)]
				fn is_sub_type(&self) -> Option<&#calls> { match self { RuntimeCall::#names(c) => Some(c), _ => None } }
			}
		)*
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
				match self { #( RuntimeCall::#names(c) => ::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c), )* }
			}
		}
		impl ::frame_support::extension::CheckIfFeeless for RuntimeCall {
			type Origin = RuntimeOrigin;
			fn is_feeless(&self, origin: &Self::Origin) -> bool {
				match self { #( RuntimeCall::#names(c) => ::frame_support::extension::CheckIfFeeless::is_feeless(c, origin), )* }
			}
		}
		impl ::frame_support::traits::GetCallMetadata for RuntimeCall {
			fn get_module_names() -> &'static [&'static str] { &[#(#strs),*] }
			fn get_call_names(module: &str) -> &'static [&'static str] {
				match module { #( #strs => <#calls as ::frame_support::traits::GetCallName>::get_call_names(), )* _ => &[] }
			}
			fn get_call_metadata(&self) -> ::frame_support::traits::CallMetadata {
				match self { #( RuntimeCall::#names(c) => ::frame_support::traits::CallMetadata {
					function_name: ::frame_support::traits::GetCallName::get_call_name(c), pallet_name: #strs }, )* }
			}
		}
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #( RuntimeCall::#names(c) => ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin), )* }
			}
		}
		impl ::frame_support::__private::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as ::frame_support::traits::OriginTrait>::filter_call(&origin, &self) {
					return Err(::frame_system::Error::<#rt>::CallFiltered.into());
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}

		#agg_derive
		#rt_vis enum RuntimeEvent { #( #[codec(index = #idx)] #names(#events), )* }
		#ti_event
		#(
			impl ::core::convert::From<#events> for RuntimeEvent { fn from(c: #events) -> Self { RuntimeEvent::#names(c) } }
			impl ::core::convert::TryInto<#events> for RuntimeEvent {
				type Error = ();
				#[allow(unreachable_patterns)]
				fn try_into(self) -> ::core::result::Result<#events, ()> { match self { RuntimeEvent::#names(c) => Ok(c), _ => Err(()) } }
			}
		)*

		#[derive(Clone, PartialEq, Eq, Debug)]
		#rt_vis enum RuntimeError { Module(::frame_support::__private::ModuleError) }
		#[derive(Clone, PartialEq, Eq, Debug)]
		#rt_vis enum RuntimeTask {}

		#[derive(Clone, PartialEq, Eq, Debug, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode, ::frame_support::__private::codec::MaxEncodedLen)]
		#[codec(crate = ::frame_support::__private::codec)]
		#[allow(non_camel_case_types)]
		#rt_vis enum OriginCaller {
			#[codec(index = #sys_idx)]
			system(::frame_system::Origin<#rt>),
			#( #[codec(index = #o_idx)] #o_names(#o_tys), )*
		}
		#ti_oc
		impl ::frame_support::traits::CallerTrait<<#rt as ::frame_system::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> Option<::frame_system::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> {
				match self { OriginCaller::system(x) => Some(x), _ => None }
			}
			fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> {
				match self { OriginCaller::system(x) => Some(x), _ => None }
			}
		}
		impl ::core::convert::From<::frame_system::Origin<#rt>> for OriginCaller {
			fn from(x: ::frame_system::Origin<#rt>) -> Self { OriginCaller::system(x) }
		}
		impl ::core::convert::TryFrom<OriginCaller> for ::frame_system::Origin<#rt> {
			type Error = OriginCaller;
			fn try_from(x: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { match x { OriginCaller::system(l) => Ok(l), x => Err(x) } }
		}
		#(
			impl ::core::convert::From<#o_tys> for OriginCaller { fn from(x: #o_tys) -> Self { OriginCaller::#o_names(x) } }
			impl ::core::convert::From<#o_tys> for RuntimeOrigin { fn from(x: #o_tys) -> Self { let c: OriginCaller = x.into(); c.into() } }
			impl ::core::convert::TryFrom<OriginCaller> for #o_tys {
				type Error = OriginCaller;
				#[allow(unreachable_patterns)]
				fn try_from(x: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { match x { OriginCaller::#o_names(l) => Ok(l), x => Err(x) } }
			}
			impl<'a> ::core::convert::TryFrom<&'a OriginCaller> for &'a #o_tys {
				type Error = ();
				#[allow(unreachable_patterns)]
				fn try_from(x: &'a OriginCaller) -> ::core::result::Result<Self, ()> { match x { OriginCaller::#o_names(l) => Ok(l), _ => Err(()) } }
			}
			impl ::core::convert::From<RuntimeOrigin> for ::core::result::Result<#o_tys, RuntimeOrigin> {
				#[allow(unreachable_patterns)]
				fn from(v: RuntimeOrigin) -> Self { match v.caller { OriginCaller::#o_names(l) => Ok(l), _ => Err(v) } }
			}
		)*

		#[derive(Clone)]
		#rt_vis struct RuntimeOrigin {
			pub caller: OriginCaller,
			filter: ::std::rc::Rc<Box<dyn Fn(&<#rt as ::frame_system::Config>::RuntimeCall) -> bool>>,
		}
		impl ::core::fmt::Debug for RuntimeOrigin {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() }
		}
		impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = <#rt as ::frame_system::Config>::RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as ::frame_system::Config>::AccountId;
			fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = ::std::rc::Rc::new(Box::new(move |call| f(call) && filter(call)));
			}
			fn reset_filter(&mut self) {
				let filter = <<#rt as ::frame_system::Config>::BaseCallFilter as ::frame_support::traits::Contains<Self::Call>>::contains;
				self.filter = ::std::rc::Rc::new(Box::new(filter));
			}
			fn set_caller(&mut self, caller: OriginCaller) { self.caller = caller }
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn filter_call(&self, call: &Self::Call) -> bool {
				match self.caller {
					// Root bypasses all filters
					OriginCaller::system(::frame_system::RawOrigin::Root) => true,
					_ => (self.filter)(call),
				}
			}
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(OriginCaller) -> ::core::result::Result<R, OriginCaller>) -> ::core::result::Result<R, Self> {
				match f(self.caller) { Ok(r) => Ok(r), Err(caller) => { self.caller = caller; Err(self) } }
			}
			fn none() -> Self { ::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
		}
		impl RuntimeOrigin {
			pub fn none() -> Self { <RuntimeOrigin as ::frame_support::traits::OriginTrait>::none() }
			pub fn root() -> Self { <RuntimeOrigin as ::frame_support::traits::OriginTrait>::root() }
			pub fn signed(by: <#rt as ::frame_system::Config>::AccountId) -> Self { <RuntimeOrigin as ::frame_support::traits::OriginTrait>::signed(by) }
		}
		impl ::core::convert::From<OriginCaller> for RuntimeOrigin {
			fn from(x: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller: x, filter: ::std::rc::Rc::new(Box::new(|_| true)) };
				if !matches!(o.caller, OriginCaller::system(::frame_system::RawOrigin::Root)) {
					::frame_support::traits::OriginTrait::reset_filter(&mut o);
				}
				o
			}
		}
		impl ::core::convert::From<::frame_system::Origin<#rt>> for RuntimeOrigin {
			fn from(x: ::frame_system::Origin<#rt>) -> Self { let o: OriginCaller = x.into(); o.into() }
		}
		impl ::core::convert::From<Option<<#rt as ::frame_system::Config>::AccountId>> for RuntimeOrigin {
			fn from(x: Option<<#rt as ::frame_system::Config>::AccountId>) -> Self { <::frame_system::Origin<#rt>>::from(x).into() }
		}
		impl ::core::convert::From<RuntimeOrigin> for ::core::result::Result<::frame_system::Origin<#rt>, RuntimeOrigin> {
			fn from(v: RuntimeOrigin) -> Self { match v.caller { OriginCaller::system(l) => Ok(l), _ => Err(v) } }
		}
		impl ::frame_support::__private::AsSystemOriginSigner<<#rt as ::frame_system::Config>::AccountId> for RuntimeOrigin {
			fn as_system_origin_signer(&self) -> Option<&<#rt as ::frame_system::Config>::AccountId> {
				match &self.caller { OriginCaller::system(::frame_system::RawOrigin::Signed(a)) => Some(a), _ => None }
			}
		}

		#holds_ts
		#freezes_ts

		#( #[allow(dead_code)] #rt_vis type #g_alias = #g_tys; )*
		#[derive(Default)]
		#rt_vis struct RuntimeGenesisConfig { #( pub #g_names: #g_tys, )* }
		impl ::frame_support::__private::BuildStorage for RuntimeGenesisConfig {
			fn assimilate_storage(&self, s: &mut ::frame_support::__private::Storage) -> ::core::result::Result<(), String> {
				#( ::frame_support::__private::BuildStorage::assimilate_storage(&self.#g_names, s)?; )*
				Ok(())
			}
		}
	})
}
