use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote};
use syn::{spanned::Spanned, *};

type Res<T> = Result<T>;

fn is_pallet_attr(a: &Attribute) -> Option<String> {
	let p = a.path();
	if p.segments.len() == 2 && p.segments[0].ident == "pallet" {
		Some(p.segments[1].ident.to_string())
	} else {
		None
	}
}

/// Removes `#[pallet::...]` attributes and returns them.
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
	let mut out = vec![];
	attrs.retain(|a| {
		if let Some(n) = is_pallet_attr(a) {
			out.push((n, a.clone()));
			false
		} else {
			true
		}
	});
	out
}

fn attrs_mut(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Const(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Struct(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		_ => return None,
	})
}

pub struct Gen {
	instance: bool,
}
impl Gen {
	/// `<T: Config>` or `<T: Config<I>, I: 'static>`
	fn impl_generics(&self) -> TokenStream {
		if self.instance {
			quote!(<T: Config<I>, I: 'static>)
		} else {
			quote!(<T: Config>)
		}
	}
	fn use_generics(&self) -> TokenStream {
		if self.instance {
			quote!(<T, I>)
		} else {
			quote!(<T>)
		}
	}
	fn config(&self) -> TokenStream {
		if self.instance {
			quote!(Config<I>)
		} else {
			quote!(Config)
		}
	}
	fn decl(&self) -> TokenStream {
		if self.instance {
			quote!(<T: Config<I>, I: 'static = ()>)
		} else {
			quote!(<T: Config>)
		}
	}
	fn phantom(&self) -> TokenStream {
		if self.instance {
			quote!(::core::marker::PhantomData<fn() -> (T, I)>)
		} else {
			quote!(::core::marker::PhantomData<fn() -> T>)
		}
	}
}

/// Uses of an item's own generics: `<T, I>`, `<T>`, `<I>` or nothing.
fn own_generics(g: &Generics) -> TokenStream {
	let names: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
	if names.is_empty() {
		quote!()
	} else {
		quote!(<#(#names),*>)
	}
}

fn bounded_generics(g: &Generics) -> Generics {
	let mut g = g.clone();
	for p in g.type_params_mut() {
		p.default = None;
		p.eq_token = None;
	}
	g
}

/// Implements one trait for a struct or enum without adding bounds on its parameters.
pub fn no_bound(d: &DeriveInput, tr: &str) -> TokenStream {
	let name = &d.ident;
	let mut g = bounded_generics(&d.generics);
	let real = tr.trim_end_matches("Bound");
	if tr == "DebugBound" {
		for p in g.type_params_mut() {
			p.bounds.push(parse_quote!(::core::fmt::Debug));
		}
	}
	let (ig, tg, wc) = g.split_for_impl();
	let variants: Vec<(TokenStream, String, Fields)> = match &d.data {
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let i = &v.ident;
				(quote!(#name::#i), i.to_string(), v.fields.clone())
			})
			.collect(),
		Data::Struct(s) => vec![(quote!(#name), name.to_string(), s.fields.clone())],
		_ => vec![],
	};
	let pat = |path: &TokenStream, f: &Fields, pre: &str| -> (TokenStream, Vec<Ident>) {
		match f {
			Fields::Named(n) => {
				let ids: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
				let b: Vec<_> = ids.iter().map(|i| format_ident!("{}_{}", pre, i)).collect();
				(quote!(#path { #(#ids: #b),* }), b)
			}
			Fields::Unnamed(u) => {
				let b: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("{}_{}", pre, i)).collect();
				(quote!(#path ( #(#b),* )), b)
			}
			Fields::Unit => (quote!(#path), vec![]),
		}
	};
	match real {
		"Clone" => {
			let arms = variants.iter().map(|(p, _, f)| {
				let (pt, b) = pat(p, f, "a");
				let cl: Vec<_> = b.iter().map(|i| quote!(::core::clone::Clone::clone(#i))).collect();
				let build = match f {
					Fields::Named(n) => {
						let ids = n.named.iter().map(|x| x.ident.clone().unwrap());
						quote!(#p { #(#ids: #cl),* })
					}
					Fields::Unnamed(_) => quote!(#p ( #(#cl),* )),
					Fields::Unit => quote!(#p),
				};
				quote!(#pt => #build,)
			});
			quote!(impl #ig ::core::clone::Clone for #name #tg #wc { #[allow(unreachable_code)] fn clone(&self) -> Self { match self { #(#arms)* } } })
		}
		"PartialEq" => {
			let arms = variants.iter().map(|(p, _, f)| {
				let (p1, a) = pat(p, f, "a");
				let (p2, b) = pat(p, f, "b");
				quote!((#p1, #p2) => true #(&& #a == #b)*,)
			});
			quote!(impl #ig ::core::cmp::PartialEq for #name #tg #wc { #[allow(unreachable_patterns, unreachable_code)] fn eq(&self, o: &Self) -> bool { match (self, o) { #(#arms)* _ => false } } })
		}
		"Eq" => quote!(impl #ig ::core::cmp::Eq for #name #tg #wc {}),
		"Debug" => {
			let arms = variants.iter().map(|(p, n, f)| {
				let (pt, b) = pat(p, f, "a");
				match f {
					Fields::Named(nm) => {
						let ids = nm.named.iter().map(|x| x.ident.clone().unwrap().to_string());
						quote!(#pt => f.debug_struct(#n) #(.field(#ids, #b))* .finish(),)
					}
					Fields::Unnamed(_) => quote!(#pt => f.debug_tuple(#n) #(.field(#b))* .finish(),),
					Fields::Unit => quote!(#pt => f.write_str(#n),),
				}
			});
			quote!(impl #ig ::core::fmt::Debug for #name #tg #wc { #[allow(unreachable_code)] fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#arms)* } } })
		}
		"Default" => {
			let Some((p, _, f)) = variants.first() else { return quote!() };
			let build = match f {
				Fields::Named(n) => {
					let ids = n.named.iter().map(|x| x.ident.clone().unwrap());
					quote!(#p { #(#ids: ::core::default::Default::default()),* })
				}
				Fields::Unnamed(u) => {
					let d = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
					quote!(#p ( #(#d),* ))
				}
				Fields::Unit => quote!(#p),
			};
			quote!(impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #build } })
		}
		_ => quote!(),
	}
}

fn enum_traits(e: &ItemEnum, codec: bool) -> TokenStream {
	let d: DeriveInput = DeriveInput {
		attrs: vec![],
		vis: e.vis.clone(),
		ident: e.ident.clone(),
		generics: e.generics.clone(),
		data: Data::Enum(DataEnum { enum_token: e.enum_token, brace_token: e.brace_token, variants: e.variants.clone() }),
	};
	let a = no_bound(&d, "Clone");
	let b = no_bound(&d, "PartialEq");
	let c = no_bound(&d, "Eq");
	let f = no_bound(&d, "Debug");
	let ti = if codec {
		let name = &e.ident;
		let g = bounded_generics(&e.generics);
		let (ig, tg, wc) = g.split_for_impl();
		quote! {
			impl #ig ::frame_support::__private::scale_info::TypeInfo for #name #tg #wc {
				type Identity = Self;
				fn type_info() -> ::frame_support::__private::scale_info::Type {
					::frame_support::__private::scale_info::TypeDefPrimitive::U8.into()
				}
			}
		}
	} else {
		quote!()
	};
	quote!(#a #b #c #f #ti)
}

fn add_ignore(e: &mut ItemEnum) {
	let params: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
	if params.is_empty() {
		return;
	}
	e.variants.push(parse_quote! {
		#[doc(hidden)]
		#[codec(skip)]
		__Ignore(::core::marker::PhantomData<fn() -> (#(#params,)*)>, ::frame_support::Never)
	});
}

fn codec_attrs(e: &mut ItemEnum) {
	e.attrs.push(parse_quote!(#[derive(::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]));
	e.attrs.push(parse_quote!(#[codec(crate = ::frame_support::__private::codec)]));
	if e.generics.type_params().next().is_some() {
		e.attrs.push(parse_quote!(#[codec(encode_bound())]));
		e.attrs.push(parse_quote!(#[codec(decode_bound())]));
	}
}

pub fn expand(mut m: ItemMod) -> Res<TokenStream> {
	let (_, items) = m.content.as_mut().ok_or_else(|| Error::new(Span::call_site(), "inline module expected"))?;
	// is the pallet instantiable?
	let mut g = Gen { instance: false };
	for i in items.iter() {
		if let Item::Struct(s) = i {
			if s.attrs.iter().any(|a| is_pallet_attr(a).as_deref() == Some("pallet")) {
				g.instance = s.generics.type_params().count() > 1;
			}
		}
	}
	let ig = g.impl_generics();
	let ug = g.use_generics();
	let cfg = g.config();
	let mut extra: Vec<TokenStream> = vec![];
	let mut parts: std::collections::BTreeMap<&str, TokenStream> = Default::default();
	let mut has_hooks = false;
	let mut error_variants: Vec<Ident> = vec![];

	for item in items.iter_mut() {
		let taken = attrs_mut(item).map(take).unwrap_or_default();
		let has = |n: &str| taken.iter().find(|(k, _)| k == n).map(|(_, a)| a.clone());
		match item {
			Item::Trait(t) if has("config").is_some() => {
				for it in t.items.iter_mut() {
					if let TraitItem::Type(x) = it {
						take(&mut x.attrs);
					}
				}
			}
			Item::Struct(s) if has("pallet").is_some() => {
				let ph = g.phantom();
				let vis = &s.vis;
				let decl = if g.instance { quote!(<T, I = ()>) } else { quote!(<T>) };
				let plain = if g.instance { quote!(<T, I>) } else { quote!(<T>) };
				extra.push(quote! {
					impl #plain ::core::clone::Clone for Pallet #plain { fn clone(&self) -> Self { Pallet(::core::marker::PhantomData) } }
					impl #plain ::core::cmp::PartialEq for Pallet #plain { fn eq(&self, _: &Self) -> bool { true } }
					impl #plain ::core::cmp::Eq for Pallet #plain {}
					impl #plain ::core::fmt::Debug for Pallet #plain { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("Pallet") } }
				});
				*item = parse_quote!(#vis struct Pallet #decl (#ph););
			}
			Item::Type(t) if has("storage").is_some() => {
				extra.push(storage(t, &g, has("getter"))?);
			}
			Item::Enum(e) if has("event").is_some() => {
				let dep = e.attrs.iter().position(|a| is_pallet_attr(a).is_some());
				debug_assert!(dep.is_none());
				add_ignore(e);
				codec_attrs(e);
				extra.push(enum_traits(e, true));
				let og = own_generics(&e.generics);
				let ident = &e.ident;
				parts.insert("Event", quote!(#ident #og));
				if let Some(a) = has("generate_deposit") {
					let toks = a.meta.require_list()?.tokens.clone();
					extra.push(quote! {
						impl #ig Pallet #ug {
							#toks (event: #ident #og) {
								let event = <<T as #cfg>::RuntimeEvent as ::core::convert::From<#ident #og>>::from(event);
								let event = <<T as #cfg>::RuntimeEvent as ::core::convert::Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
								::frame_system::Pallet::<T>::deposit_event(event)
							}
						}
					});
				}
			}
			Item::Enum(e) if has("error").is_some() => {
				let names: Vec<Ident> = e.variants.iter().map(|v| v.ident.clone()).collect();
				let pats: Vec<TokenStream> = e
					.variants
					.iter()
					.map(|v| {
						let i = &v.ident;
						match &v.fields {
							Fields::Unit => quote!(#i),
							Fields::Unnamed(_) => quote!(#i(..)),
							Fields::Named(_) => quote!(#i { .. }),
						}
					})
					.collect();
				error_variants = names.clone();
				let strs: Vec<String> = names.iter().map(|n| n.to_string()).collect();
				let idx: Vec<u8> = (0..names.len() as u8).collect();
				let params: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
				let eg = e.generics.clone();
				e.variants.push(parse_quote! {
					#[doc(hidden)]
					__Ignore(::core::marker::PhantomData<fn() -> (#(#params,)*)>, ::frame_support::Never)
				});
				let plain = own_generics(&eg);
				let ident = &e.ident;
				parts.insert("Error", quote!(#ident #plain));
				let pg = if params.is_empty() { quote!() } else { quote!(<#(#params),*>) };
				// unless the pallet derives it
				let eq = if e.attrs.iter().any(|a| a.path().is_ident("derive") && quote!(#a).to_string().contains("PartialEq")) {
					quote!()
				} else {
					quote! {
						impl #pg ::core::cmp::PartialEq for #ident #plain {
							fn eq(&self, o: &Self) -> bool { self.as_u8() == o.as_u8() }
						}
					}
				};
				extra.push(quote! {
					impl #pg #ident #plain {
						#[doc(hidden)]
						pub fn as_str(&self) -> &'static str {
							match self { #(Self::#pats => #strs,)* Self::__Ignore(_, n) => match *n {} }
						}
						#[doc(hidden)]
						pub fn as_u8(&self) -> u8 {
							match self { #(Self::#pats => #idx,)* Self::__Ignore(_, n) => match *n {} }
						}
					}
					impl #pg ::core::fmt::Debug for #ident #plain {
						fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) }
					}
					#eq
					impl #pg ::core::convert::From<#ident #plain> for &'static str {
						fn from(e: #ident #plain) -> &'static str { e.as_str() }
					}
					impl #ig ::core::convert::From<#ident #plain> for ::frame_support::__private::DispatchError {
						fn from(e: #ident #plain) -> Self {
							let index = <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Pallet #ug>()
								.expect("pallet is part of the runtime") as u8;
							::frame_support::__private::DispatchError::Module(::frame_support::__private::ModuleError {
								index, error: [e.as_u8(), 0, 0, 0], message: Some(e.as_str()),
							})
						}
					}
				});
			}
			Item::Enum(e) if has("composite_enum").is_some() => {
				let kind = e.ident.to_string();
				let ident = e.ident.clone();
				let og = own_generics(&e.generics);
				e.attrs.push(parse_quote!(#[derive(
					Copy, Clone, Eq, PartialEq, Debug,
					::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode,
					::frame_support::__private::codec::MaxEncodedLen, ::frame_support::__private::scale_info::TypeInfo
				)]));
				e.attrs.push(parse_quote!(#[codec(crate = ::frame_support::__private::codec)]));
				e.attrs.push(parse_quote!(#[scale_info(crate = ::frame_support::__private::scale_info)]));
				let n = e.variants.len() as u32;
				extra.push(quote! {
					impl ::frame_support::traits::VariantCount for #ident #og { const VARIANT_COUNT: u32 = #n; }
				});
				let key = match kind.as_str() {
					"HoldReason" => "HoldReason",
					"FreezeReason" => "FreezeReason",
					_ => "SlashReason",
				};
				parts.insert(key, quote!(#ident #og));
			}
			Item::Enum(e) if has("origin").is_some() => {
				let (i, og) = (&e.ident, own_generics(&e.generics));
				parts.insert("Origin", quote!(#i #og));
			}
			Item::Struct(e) if has("origin").is_some() => {
				let (i, og) = (&e.ident, own_generics(&e.generics));
				parts.insert("Origin", quote!(#i #og));
			}
			Item::Type(e) if has("origin").is_some() => {
				let (i, og) = (&e.ident, own_generics(&e.generics));
				parts.insert("Origin", quote!(#i #og));
			}
			Item::Fn(f) if has("type_value").is_some() => {
				let (vis, name, body, generics) = (&f.vis, &f.sig.ident, &f.block, &f.sig.generics);
				let ReturnType::Type(_, ret) = &f.sig.output else { return Err(Error::new(f.span(), "return type expected")) };
				let bg = bounded_generics(generics);
				let (gi, gt, gw) = bg.split_for_impl();
				let ps: Vec<_> = generics.type_params().map(|p| p.ident.clone()).collect();
				let ts = quote! {
					#vis struct #name #generics (::core::marker::PhantomData<fn() -> (#(#ps,)*)>) #gw;
				};
				extra.push(quote!(impl #gi ::frame_support::traits::Get<#ret> for #name #gt #gw { fn get() -> #ret #body }));
				*item = syn::parse2(ts)?;
			}
			Item::Impl(im) if has("hooks").is_some() => {
				has_hooks = true;
				let _ = im;
			}
			Item::Impl(im) if has("call").is_some() => {
				let a = has("call").unwrap();
				extra.push(calls(im, &g, &a)?);
				parts.insert("Call", quote!(Call #ug));
			}
			Item::Impl(im) => {
				// genesis_build, validate_unsigned, inherent, extra_constants: plain code
				for it in im.items.iter_mut() {
					if let ImplItem::Fn(f) = it {
						take(&mut f.attrs);
					}
				}
			}
			_ => {}
		}
	}
	let _ = error_variants;
	if !parts.contains_key("Call") {
		// an uninhabited call type, so that `Call<T>` can always be named
		let decl = g.decl();
		let mut e: ItemEnum = parse_quote!(#[allow(non_camel_case_types)] pub enum Call #decl {});
		add_ignore(&mut e);
		codec_attrs(&mut e);
		let tr = enum_traits(&e, true);
		extra.push(quote! {
			#e #tr
			impl #ig ::frame_support::dispatch::GetDispatchInfo for Call #ug {
				fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { Self::__Ignore(_, n) => match *n {} } }
			}
			impl #ig ::frame_support::extension::CheckIfFeeless for Call #ug {
				type Origin = <T as ::frame_system::Config>::RuntimeOrigin;
				fn is_feeless(&self, _: &Self::Origin) -> bool { match self { Self::__Ignore(_, n) => match *n {} } }
			}
			impl #ig ::frame_support::traits::GetCallName for Call #ug {
				fn get_call_names() -> &'static [&'static str] { &[] }
				fn get_call_name(&self) -> &'static str { match self { Self::__Ignore(_, n) => match *n {} } }
			}
			impl #ig ::frame_support::traits::UnfilteredDispatchable for Call #ug {
				type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
				fn dispatch_bypass_filter(self, _: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { Self::__Ignore(_, n) => match n {} } }
			}
		});
		parts.insert("Call", quote!(Call #ug));
	}
	let nothing = |k: &str| {
		let k = format_ident!("Kind{}", k);
		quote!(::frame_support::parts::Nothing<Pallet #ug, ::frame_support::parts::#k>)
	};
	let part = |k: &str| parts.get(k).cloned().unwrap_or_else(|| nothing(k));
	let (call, event, origin, hold, freeze) = (part("Call"), part("Event"), part("Origin"), part("HoldReason"), part("FreezeReason"));
	// plain aliases: the runtime's aggregates must not depend on trait resolution
	for (k, ty) in [("Call", call.clone()), ("Event", event), ("Origin", origin), ("HoldReason", hold), ("FreezeReason", freeze)] {
		let alias = format_ident!("__Part{}", k);
		fn has(ts: &TokenStream, id: &str) -> bool {
			ts.clone().into_iter().any(|t| match t {
				proc_macro2::TokenTree::Group(g) => has(&g.stream(), id),
				t => t.to_string() == id,
			})
		}
		let instantiable = has(&quote!(#ug), "I");
		let direct = has(&ty, "T") && (!instantiable || has(&ty, "I"));
		let gen = if instantiable { quote!(<T, I = ()>) } else { quote!(<T>) };
		// the runtime type is local to the crate defining the runtime, so that coherence can see through this
		let ty = if direct {
			ty
		} else {
			let of = format_ident!("__{}Of", k);
			extra.push(quote! {
				#[doc(hidden)]
				pub trait #of<I> { type Out; }
				impl<T, I> #of<I> for T { type Out = #ty; }
			});
			let i = if instantiable { quote!(I) } else { quote!(()) };
			quote!(<T as #of<#i>>::Out)
		};
		extra.push(quote!(#[doc(hidden)] #[allow(type_alias_bounds)] pub type #alias #gen = #ty;));
	}
	extra.push(quote! {
		impl #ig ::frame_support::traits::PalletInfoAccess for Pallet #ug {
			fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Self>().expect("in runtime") }
			fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Self>().expect("in runtime") }
			fn module_name() -> &'static str { ::core::module_path!() }
			fn crate_version() -> ::frame_support::traits::CrateVersion { ::frame_support::traits::CrateVersion { major: 0, minor: 0, patch: 0 } }
		}
		impl #ig ::frame_support::traits::Callable<T> for Pallet #ug {
			type RuntimeCall = #call;
		}
	});
	if !has_hooks {
		extra.push(quote!(impl #ig ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet #ug {}));
	}
	extra.push(quote! {
		impl #ig ::frame_support::traits::OnInitialize<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet #ug {
			fn on_initialize(n: ::frame_system::pallet_prelude::BlockNumberFor<T>) -> ::frame_support::weights::Weight {
				<Self as ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_initialize(n)
			}
		}
		impl #ig ::frame_support::traits::OnFinalize<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet #ug {
			fn on_finalize(n: ::frame_system::pallet_prelude::BlockNumberFor<T>) {
				<Self as ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_finalize(n)
			}
		}
		impl #ig ::frame_support::traits::OnIdle<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet #ug {
			fn on_idle(n: ::frame_system::pallet_prelude::BlockNumberFor<T>, w: ::frame_support::weights::Weight) -> ::frame_support::weights::Weight {
				<Self as ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_idle(n, w)
			}
		}
	});
	if g.instance {
		extra.push(quote!(pub use ::frame_support::instances::*;));
	}
	for x in extra {
		let f: File = parse2(x)?;
		items.extend(f.items);
	}
	m.attrs.push(parse_quote!(#[allow(unused_imports, dead_code, type_alias_bounds, non_camel_case_types, unused_variables, non_snake_case, private_interfaces, private_bounds, clippy::all)]));
	Ok(quote!(#m))
}

fn storage(t: &mut ItemType, g: &Gen, getter: Option<Attribute>) -> Res<TokenStream> {
	let name = t.ident.clone();
	let vis = t.vis.clone();
	let (ig, ug) = (g.impl_generics(), g.use_generics());
	let prefix = format_ident!("__Prefix{}", name);
	let decl = if g.instance { quote!(<T, I = ()>) } else { quote!(<T>) };
	let ph = g.phantom();
	let alias_params: Vec<_> = t.generics.type_params().map(|p| p.ident.clone()).collect();
	let prefix_use = if alias_params.is_empty() { quote!() } else { quote!(<#(#alias_params),*>) };
	let mut out = quote! {
		#[doc(hidden)]
		#vis struct #prefix #decl (#ph);
		impl #ig ::frame_support::storage::StorageInstance for #prefix #ug {
			fn pallet_prefix() -> &'static str {
				<<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Pallet #ug>().expect("pallet is part of the runtime")
			}
			const STORAGE_PREFIX: &'static str = stringify!(#name);
		}
	};
	let Type::Path(tp) = &mut *t.ty else { return Err(Error::new(t.span(), "storage type expected")) };
	let seg = tp.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(args) = &mut seg.arguments else { return Err(Error::new(seg.span(), "generics expected")) };
	let mut keys: Vec<Type> = vec![];
	let n_args = args.args.len();
	let _ = n_args;
	for (i, a) in args.args.iter_mut().enumerate() {
		let GenericArgument::Type(ty) = a else { continue };
		if i == 0 {
			*ty = parse_quote!(#prefix #prefix_use);
			continue;
		}
		let is_key = match kind.as_str() {
			"StorageMap" | "CountedStorageMap" => i == 2,
			"StorageDoubleMap" => i == 2 || i == 4,
			_ => false,
		};
		if is_key {
			keys.push(ty.clone());
		}
		// ResultQuery<Error<T>::Variant>
		if let Type::Path(q) = ty {
			let last = q.path.segments.last().unwrap();
			if last.ident == "ResultQuery" {
				let PathArguments::AngleBracketed(qa) = &last.arguments else { continue };
				let Some(GenericArgument::Type(Type::Path(err))) = qa.args.first() else { continue };
				let segs: Vec<_> = err.path.segments.iter().cloned().collect();
				let variant = segs.last().unwrap().ident.clone();
				let enum_segs = &segs[..segs.len() - 1];
				let res = format_ident!("__OnEmpty{}", name);
				let enum_ty = quote!(#(#enum_segs)::*);
				out.extend(quote! {
					#[doc(hidden)]
					#vis struct #res #decl (#ph);
					impl #ig ::frame_support::storage::ErrorGetter for #res #ug {
						type Error = #enum_ty;
						fn get() -> #enum_ty { <#enum_ty>::#variant }
					}
				});
				*ty = parse_quote!(::frame_support::storage::ResultQuery<#res #prefix_use>);
			}
		}
	}
	t.attrs.push(parse_quote!(#[allow(type_alias_bounds)]));
	if let Some(a) = getter {
		let toks = a.meta.require_list()?.tokens.clone();
		// `fn name` with optional visibility
		let s: ItemFn = parse2(quote!(#toks () {}))?;
		let (gvis, gname) = (s.vis, s.sig.ident);
		let gvis = if matches!(gvis, Visibility::Inherited) { quote!(pub) } else { quote!(#gvis) };
		let ks: Vec<Ident> = (0..keys.len()).map(|i| format_ident!("k{}", i)).collect();
		let kt: Vec<Ident> = (0..keys.len()).map(|i| format_ident!("K{}", i)).collect();
		out.extend(quote! {
			impl #ig Pallet #ug {
				#gvis fn #gname<#(#kt: ::frame_support::__private::codec::EncodeLike<#keys>),*>(#(#ks: #kt),*) -> <#name #prefix_use as ::frame_support::storage::HasQuery>::Query {
					<#name #prefix_use>::get(#(#ks),*)
				}
			}
		});
	}
	Ok(out)
}

fn calls(im: &mut ItemImpl, g: &Gen, attr: &Attribute) -> Res<TokenStream> {
	let inherited: Option<TokenStream> = match &attr.meta {
		Meta::List(l) => {
			let mut out = None;
			l.parse_nested_meta(|m| {
				if m.path.is_ident("weight") {
					let c;
					parenthesized!(c in m.input);
					let t: Type = c.parse()?;
					out = Some(quote!(#t));
				}
				Ok(())
			})?;
			out
		}
		_ => None,
	};
	let (ig, ug) = (g.impl_generics(), g.use_generics());
	let wc = im.generics.where_clause.clone();
	let mut variants = vec![];
	let mut constructors: Vec<TokenStream> = vec![];
	let mut dispatch = vec![];
	let mut infos = vec![];
	let mut feeless = vec![];
	let mut names = vec![];
	let mut name_arms = vec![];
	let mut next = 0u8;
	let mut fns = vec![];
	for it in im.items.iter_mut() {
		let ImplItem::Fn(f) = it else { continue };
		let taken = take(&mut f.attrs);
		let mut index = next;
		let mut weight: Option<TokenStream> = None;
		let mut free: Option<ExprClosure> = None;
		for (n, a) in &taken {
			match n.as_str() {
				"call_index" => {
					let l: LitInt = a.parse_args()?;
					index = l.base10_parse()?;
				}
				"weight" => {
					let l = a.meta.require_list()?;
					weight = Some(l.tokens.clone());
				}
				"feeless_if" => free = Some(a.parse_args()?),
				_ => {}
			}
		}
		next = index + 1;
		let name = f.sig.ident.clone();
		let mut args: Vec<(Ident, Type)> = vec![];
		let mut fields: Vec<TokenStream> = vec![];
		for (i, a) in f.sig.inputs.iter_mut().enumerate() {
			let FnArg::Typed(p) = a else { continue };
			let compact = take(&mut p.attrs).iter().any(|(n, _)| n == "compact");
			if i == 0 {
				continue;
			}
			let Pat::Ident(id) = &*p.pat else { return Err(Error::new(p.span(), "identifier expected")) };
			let (name, ty) = (id.ident.clone(), (*p.ty).clone());
			fields.push(if compact { quote!(#[codec(compact)] #name: #ty) } else { quote!(#name: #ty) });
			args.push((name, ty));
		}
		let ret = match &f.sig.output {
			ReturnType::Type(_, t) => quote!(#t),
			_ => return Err(Error::new(f.span(), "dispatch result expected")),
		};
		let body = f.block.clone();
		f.block = parse_quote!({
			::frame_support::storage::with_storage_layer(move || -> #ret #body)
		});
		f.attrs.push(parse_quote!(#[allow(unused_mut, clippy::all)]));
		// underscored arguments keep their name without the leading underscore problems
		let ids: Vec<_> = args.iter().map(|a| a.0.clone()).collect();
		let new = format_ident!("new_call_variant_{}", name);
		let tys: Vec<_> = args.iter().map(|a| a.1.clone()).collect();
		constructors.push(quote!(pub fn #new(#(#ids: #tys),*) -> Self { Self::#name { #(#ids),* } }));
		variants.push(quote!(#[codec(index = #index)] #name { #(#fields),* }));
		dispatch.push(quote! {
			Self::#name { #(#ids),* } => <Pallet #ug>::#name(origin, #(#ids),*).map(::core::convert::Into::into).map_err(::core::convert::Into::into)
		});
		let w = match (weight, &inherited) {
			(Some(w), _) => quote!({ #w }),
			(None, Some(t)) => quote!({ <#t>::#name() }),
			(None, None) => quote!({ ::frame_support::weights::Weight::zero() }),
		};
		infos.push(quote!(Self::#name { #(#ids),* } => ::frame_support::dispatch::IntoDispatchInfo::into_info(#w)));
		if let Some(free) = free {
			feeless.push(quote!(Self::#name { #(#ids),* } => { let free = #free; free(origin, #(#ids),*) }));
		}
		let s = name.to_string();
		names.push(s.clone());
		name_arms.push(quote!(Self::#name { .. } => #s));
		fns.push(name);
	}
	let decl = g.decl();
	let mut e: ItemEnum = parse_quote!(
		#[allow(non_camel_case_types)]
		pub enum Call #decl #wc { #(#variants),* }
	);
	add_ignore(&mut e);
	codec_attrs(&mut e);
	let traits = enum_traits(&e, true);
	Ok(quote! {
		#e
		#traits
		#[allow(clippy::all)]
		impl #ig Call #ug #wc { #(#constructors)* }
		impl #ig ::frame_support::traits::UnfilteredDispatchable for Call #ug #wc {
			type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self {
					#(#dispatch,)*
					Self::__Ignore(_, n) => match n {},
				}
			}
		}
		impl #ig ::frame_support::dispatch::GetDispatchInfo for Call #ug #wc {
			#[allow(unused_variables)]
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
				match self {
					#(#infos,)*
					Self::__Ignore(_, n) => match *n {},
				}
			}
		}
		impl #ig ::frame_support::extension::CheckIfFeeless for Call #ug #wc {
			type Origin = <T as ::frame_system::Config>::RuntimeOrigin;
			#[allow(unused_variables)]
			fn is_feeless(&self, origin: &Self::Origin) -> bool {
				match self {
					#(#feeless,)*
					_ => false,
				}
			}
		}
		impl #ig ::frame_support::traits::GetCallName for Call #ug #wc {
			fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
			fn get_call_name(&self) -> &'static str {
				match self {
					#(#name_arms,)*
					Self::__Ignore(_, n) => match *n {},
				}
			}
		}
	})
}
