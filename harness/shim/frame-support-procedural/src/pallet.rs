//! `#[frame_support::pallet]`
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, punctuated::Punctuated, spanned::Spanned, Attribute, Error, Fields, FnArg, ImplItem, Item, ItemEnum, ItemMod, Pat, Result, Token, Type};

/// takes the `#[pallet::x]` attributes out: name and contents
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, TokenStream)> {
    let mut out = vec![];
    attrs.retain(|a| {
        let p = a.path();
        if p.segments.len() == 2 && p.segments[0].ident == "pallet" {
            let body = match &a.meta {
                syn::Meta::Path(_) => quote!(),
                syn::Meta::List(l) => l.tokens.clone(),
                syn::Meta::NameValue(n) => n.value.to_token_stream(),
            };
            out.push((p.segments[1].ident.to_string(), body));
            false
        } else {
            true
        }
    });
    out
}

fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
    Some(match i {
        Item::Const(x) => &mut x.attrs,
        Item::Enum(x) => &mut x.attrs,
        Item::Fn(x) => &mut x.attrs,
        Item::Impl(x) => &mut x.attrs,
        Item::Struct(x) => &mut x.attrs,
        Item::Trait(x) => &mut x.attrs,
        Item::Type(x) => &mut x.attrs,
        _ => return None,
    })
}

pub fn expand(mut m: ItemMod) -> Result<TokenStream> {
    let span = m.ident.span();
    let Some((_, items)) = &mut m.content else { return Err(Error::new(span, "a module with a body")) };
    let mut instance = false;
    for i in items.iter() {
        if let Item::Trait(t) = i {
            if t.ident == "Config" && t.attrs.iter().any(|a| a.path().segments.last().unwrap().ident == "config") {
                instance = t.generics.type_params().next().is_some();
            }
        }
    }
    // generics of the impls, and how the types take them
    let (ig, tg, cg) = if instance {
        (quote!(T: Config<I>, I: 'static), quote!(T, I), quote!(Config<I>))
    } else {
        (quote!(T: Config), quote!(T), quote!(Config))
    };
    let fs = quote!(frame_support);
    let mut extra: Vec<TokenStream> = vec![];
    let mut out: Vec<TokenStream> = vec![];
    let (mut has_hooks, mut has_call, mut has_pallet) = (false, false, false);
    let mut storage_version = quote!(#fs::traits::StorageVersion::new(0));

    for mut item in std::mem::take(items) {
        let attrs = item_attrs(&mut item).map(take).unwrap_or_default();
        let kinds: Vec<&str> = attrs.iter().map(|a| a.0.as_str()).collect();
        let has = |k: &str| kinds.contains(&k);
        if has("config") {
            let Item::Trait(t) = &mut item else { return Err(Error::new(item.span(), "trait")) };
            for i in &mut t.items {
                match i {
                    syn::TraitItem::Type(x) => {
                        take(&mut x.attrs);
                    }
                    syn::TraitItem::Const(x) => {
                        take(&mut x.attrs);
                    }
                    _ => {}
                }
            }
        } else if has("pallet") {
            has_pallet = true;
            let Item::Struct(s) = &item else { return Err(Error::new(item.span(), "struct")) };
            if let Some(v) = attrs.iter().find(|a| a.0 == "storage_version") {
                storage_version = v.1.clone();
            }
            let (vis, attrs, gen, name) = (&s.vis, &s.attrs, &s.generics, &s.ident);
            out.push(quote! {
                #(#attrs)*
                #[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::RuntimeDebugNoBound)]
                #vis struct #name #gen (::core::marker::PhantomData<(#tg)>);
            });
            continue;
        } else if has("hooks") {
            has_hooks = true;
        } else if has("call") {
            has_call = true;
            extra.push(call(&mut item, &ig, &tg, &cg, instance)?);
        } else if has("error") {
            let Item::Enum(e) = &mut item else { return Err(Error::new(item.span(), "enum")) };
            extra.push(error(e, &ig, &tg)?);
        } else if has("event") {
            let Item::Enum(e) = &mut item else { return Err(Error::new(item.span(), "enum")) };
            extra.push(event(e, &attrs, &ig, &tg, &cg)?);
        } else if has("storage") {
            let Item::Type(t) = &mut item else { return Err(Error::new(item.span(), "type")) };
            extra.push(storage(t, &attrs, &ig, &tg, instance)?);
        } else if has("type_value") {
            let Item::Fn(f) = &item else { return Err(Error::new(item.span(), "fn")) };
            out.push(type_value(f));
            continue;
        } else if has("genesis_build") {
            let Item::Impl(i) = &item else { return Err(Error::new(item.span(), "impl")) };
            let (ty, (gi, _, wh)) = (&i.self_ty, i.generics.split_for_impl());
            extra.push(quote! {
                impl #gi #fs::sp_runtime::BuildStorage for #ty #wh {
                    fn assimilate_storage(&self, s: &mut #fs::sp_core::storage::Storage) -> ::core::result::Result<(), String> {
                        #fs::sp_state_machine::BasicExternalities::execute_with_storage(s, || {
                            #fs::traits::BuildGenesisConfig::build(self);
                            Ok(())
                        })
                    }
                }
            });
        } else if let Some(k) = kinds.iter().find(|k| !["genesis_config", "validate_unsigned", "origin", "inherent", "extra_constants"].contains(k)) {
            return Err(Error::new(item.span(), format!("pallet::{k} is not supported")));
        }
        out.push(item.to_token_stream());
    }

    if !has_pallet {
        return Err(Error::new(span, "no pallet struct"));
    }
    if !has_hooks {
        extra.push(quote! {
            impl<#ig> #fs::traits::Hooks<frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {}
        });
    }
    if !has_call {
        let mut item: Item = if instance {
            parse_quote!(impl<T: Config<I>, I: 'static> Pallet<T, I> {})
        } else {
            parse_quote!(impl<T: Config> Pallet<T> {})
        };
        extra.push(call(&mut item, &ig, &tg, &cg, instance)?);
    }
    extra.push(quote! {
        impl<#ig> #fs::traits::PalletInfoAccess for Pallet<#tg> {
            fn index() -> usize {
                <<T as frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::index::<Self>().expect("a pallet of the runtime")
            }
            fn name() -> &'static str {
                <<T as frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::name::<Self>().expect("a pallet of the runtime")
            }
        }
        impl<#ig> #fs::traits::GetStorageVersion for Pallet<#tg> {
            fn current_storage_version() -> #fs::traits::StorageVersion { #storage_version }
            fn on_chain_storage_version() -> #fs::traits::StorageVersion { #fs::traits::StorageVersion::get::<Pallet<#tg>>() }
        }
        impl<#ig> #fs::traits::OnGenesis for Pallet<#tg> {
            fn on_genesis() {
                let v: #fs::traits::StorageVersion = #storage_version;
                v.put::<Self>();
            }
        }
        impl<#ig> #fs::traits::OnInitialize<frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {
            fn on_initialize(n: frame_system::pallet_prelude::BlockNumberFor<T>) -> #fs::weights::Weight {
                <Self as #fs::traits::Hooks<frame_system::pallet_prelude::BlockNumberFor<T>>>::on_initialize(n)
            }
        }
        impl<#ig> #fs::traits::OnFinalize<frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {
            fn on_finalize(n: frame_system::pallet_prelude::BlockNumberFor<T>) {
                <Self as #fs::traits::Hooks<frame_system::pallet_prelude::BlockNumberFor<T>>>::on_finalize(n)
            }
        }
        impl<#ig> #fs::traits::OnIdle<frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {
            fn on_idle(n: frame_system::pallet_prelude::BlockNumberFor<T>, w: #fs::weights::Weight) -> #fs::weights::Weight {
                <Self as #fs::traits::Hooks<frame_system::pallet_prelude::BlockNumberFor<T>>>::on_idle(n, w)
            }
        }
        impl<#ig> #fs::traits::OnRuntimeUpgrade for Pallet<#tg> {
            fn on_runtime_upgrade() -> #fs::weights::Weight {
                <Self as #fs::traits::Hooks<frame_system::pallet_prelude::BlockNumberFor<T>>>::on_runtime_upgrade()
            }
        }
        impl<#ig> #fs::traits::OffchainWorker<frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#tg> {
            fn offchain_worker(n: frame_system::pallet_prelude::BlockNumberFor<T>) {
                <Self as #fs::traits::Hooks<frame_system::pallet_prelude::BlockNumberFor<T>>>::offchain_worker(n)
            }
        }
    });
    if instance {
        extra.push(quote!(#[doc(hidden)] pub use frame_support::instances::*;));
    }
    let (attrs, vis, name) = (&m.attrs, &m.vis, &m.ident);
    Ok(quote! {
        #(#attrs)*
        #[allow(unused_imports, deprecated)]
        #vis mod #name {
            #(#out)*
            #[doc(hidden)]
            #[allow(unused_imports)]
            #(#extra)*
        }
    })
}

fn call(item: &mut Item, ig: &TokenStream, tg: &TokenStream, cg: &TokenStream, instance: bool) -> Result<TokenStream> {
    let Item::Impl(imp) = item else { return Err(Error::new(item.span(), "impl")) };
    let wh = imp.generics.where_clause.clone();
    let (mut variants, mut names, mut arms, mut weights) = (vec![], vec![], vec![], vec![]);
    for (n, i) in imp.items.iter_mut().enumerate() {
        let ImplItem::Fn(f) = i else { continue };
        let attrs = take(&mut f.attrs);
        if attrs.is_empty() {
            continue;
        }
        let weight = attrs.iter().find(|a| a.0 == "weight").map(|a| a.1.clone());
        let index = attrs
            .iter()
            .find(|a| a.0 == "call_index")
            .map(|a| a.1.clone())
            .unwrap_or_else(|| syn::LitInt::new(&n.to_string(), f.span()).to_token_stream());
        let mut fields = vec![];
        let mut args = vec![];
        let mut binds = vec![];
        for a in f.sig.inputs.iter_mut().skip(1) {
            let FnArg::Typed(p) = a else { return Err(Error::new(a.span(), "argument")) };
            let compact = take(&mut p.attrs).iter().any(|a| a.0 == "compact");
            let Pat::Ident(id) = &*p.pat else { return Err(Error::new(p.span(), "argument name")) };
            let raw = id.ident.to_string();
            // arguments the code does not use begin with an underscore, fields do not
            let field = format_ident!("{}", raw.trim_start_matches('_'));
            let id = format_ident!("{}", raw);
            let ty = &p.ty;
            let c = if compact { quote!(#[codec(compact)]) } else { quote!() };
            fields.push(quote!(#c #field: #ty));
            binds.push(quote!(#field: #id));
            args.push(id);
        }
        let name = &f.sig.ident;
        variants.push(quote!(#[codec(index = #index)] #[allow(non_camel_case_types)] #name { #(#fields),* }));
        names.push(name.to_string());
        arms.push(quote! {
            Self::#name { #(#binds),* } => <Pallet<#tg>>::#name(origin, #(#args),*).map(Into::into).map_err(Into::into),
        });
        let w = match weight {
            Some(w) => quote!({
                #[allow(unused_variables)]
                let w = { #w };
                frame_support::dispatch::IntoDispatchInfo::into_info(w)
            }),
            None => quote!(frame_support::dispatch::DispatchInfo::default()),
        };
        weights.push(quote!(#[allow(unused_variables)] Self::#name { #(#binds),* } => #w,));
        let block = f.block.clone();
        f.block = parse_quote!({ frame_support::storage::transactional::in_storage_layer(|| #block) });
    }
    let idents: Vec<_> = names.iter().map(|n| format_ident!("{}", n)).collect();
    let (ph, hidden) = if instance { (quote!(T, I), quote!(I: 'static = ())) } else { (quote!(T,), quote!()) };
    let eg = if instance { quote!(T: #cg, #hidden) } else { quote!(T: #cg) };
    Ok(quote! {
        #[derive(frame_support::CloneNoBound, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::RuntimeDebugNoBound,
            frame_support::codec::Encode, frame_support::codec::Decode)]
        #[codec(crate = frame_support::codec)]
        #[codec(encode_bound())]
        #[codec(decode_bound())]
        pub enum Call<#eg> #wh {
            #[doc(hidden)]
            #[codec(skip)]
            __Ignore(::core::marker::PhantomData<(#ph)>, frame_support::Never),
            #(#variants,)*
        }
        impl<#ig> frame_support::scale_info::TypeInfo for Call<#tg> #wh {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::opaque_type("Call", module_path!()) }
        }
        impl<#ig> frame_support::traits::UnfilteredDispatchable for Call<#tg> #wh {
            type RuntimeOrigin = frame_system::pallet_prelude::OriginFor<T>;
            fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
                match self {
                    #(#arms)*
                    Self::__Ignore(_, _) => unreachable!("no such call"),
                }
            }
        }
        impl<#ig> frame_support::dispatch::GetDispatchInfo for Call<#tg> #wh {
            #[allow(clippy::all)]
            fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
                match self {
                    #(#weights)*
                    Self::__Ignore(_, _) => unreachable!("no such call"),
                }
            }
        }
        impl<#ig> frame_support::traits::GetCallName for Call<#tg> #wh {
            fn get_call_name(&self) -> &'static str {
                match self {
                    #(Self::#idents { .. } => #names,)*
                    Self::__Ignore(_, _) => unreachable!("no such call"),
                }
            }
            fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
        }
        impl<#ig> frame_support::traits::Callable<T> for Pallet<#tg> #wh { type RuntimeCall = Call<#tg>; }
    })
}

fn error(e: &mut ItemEnum, ig: &TokenStream, tg: &TokenStream) -> Result<TokenStream> {
    let names: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
    let texts: Vec<_> = names.iter().map(|n| n.to_string()).collect();
    let pats: Vec<_> = e
        .variants
        .iter()
        .map(|v| match v.fields {
            Fields::Named(_) => quote!({ .. }),
            Fields::Unnamed(_) => quote!((..)),
            Fields::Unit => quote!(),
        })
        .collect();
    let params: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
    e.variants.insert(
        0,
        parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#params,)*)>, frame_support::Never)),
    );
    e.attrs.push(parse_quote!(#[derive(frame_support::codec::Encode, frame_support::codec::Decode)]));
    e.attrs.push(parse_quote!(#[codec(crate = frame_support::codec)]));
    e.attrs.push(parse_quote!(#[codec(encode_bound())]));
    e.attrs.push(parse_quote!(#[codec(decode_bound())]));
    // the number of a variant counts the listed ones only
    for (n, v) in e.variants.iter_mut().skip(1).enumerate() {
        let n = syn::LitInt::new(&n.to_string(), v.span());
        if !v.attrs.iter().any(|a| a.path().is_ident("codec")) {
            v.attrs.push(parse_quote!(#[codec(index = #n)]));
        }
    }
    let (gi, gt, _) = e.generics.split_for_impl();
    Ok(quote! {
        impl #gi Error #gt {
            #[doc(hidden)]
            pub fn as_str(&self) -> &'static str {
                match self {
                    #(Self::#names #pats => #texts,)*
                    Self::__Ignore(_, _) => unreachable!("no such error"),
                }
            }
        }
        impl #gi ::core::fmt::Debug for Error #gt {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) }
        }
        impl #gi From<Error #gt> for &'static str {
            fn from(e: Error #gt) -> &'static str { e.as_str() }
        }
        impl<#ig> From<Error<#tg>> for frame_support::sp_runtime::DispatchError {
            fn from(e: Error<#tg>) -> Self {
                let index = <<T as frame_system::Config>::PalletInfo as frame_support::traits::PalletInfo>::index::<Pallet<#tg>>()
                    .expect("a pallet of the runtime") as u8;
                let mut b = frame_support::codec::Encode::encode(&e);
                b.resize(frame_support::sp_runtime::MAX_MODULE_ERROR_ENCODED_SIZE, 0);
                frame_support::sp_runtime::DispatchError::Module(frame_support::sp_runtime::ModuleError {
                    index,
                    error: ::core::convert::TryInto::try_into(b).expect("resized"),
                    message: Some(e.as_str()),
                })
            }
        }
    })
}

fn event(e: &mut ItemEnum, attrs: &[(String, TokenStream)], ig: &TokenStream, tg: &TokenStream, cg: &TokenStream) -> Result<TokenStream> {
    let params: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
    let generic = !params.is_empty();
    e.variants.push(
        parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#params,)*)>, frame_support::Never)),
    );
    e.attrs.push(parse_quote!(#[derive(frame_support::CloneNoBound, frame_support::EqNoBound, frame_support::PartialEqNoBound,
        frame_support::RuntimeDebugNoBound, frame_support::codec::Encode, frame_support::codec::Decode)]));
    e.attrs.push(parse_quote!(#[codec(crate = frame_support::codec)]));
    e.attrs.push(parse_quote!(#[codec(encode_bound())]));
    e.attrs.push(parse_quote!(#[codec(decode_bound())]));
    let mut out = TokenStream::new();
    let (gi, gt, wh) = e.generics.split_for_impl();
    let stat: Punctuated<TokenStream, Token![,]> = params.iter().map(|p| quote!(#p: 'static)).collect();
    let wh2 = match wh {
        Some(w) => {
            let p = &w.predicates;
            quote!(where #p, #stat)
        }
        None => quote!(where #stat),
    };
    out.extend(quote! {
        impl #gi frame_support::scale_info::TypeInfo for Event #gt #wh2 {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::opaque_type("Event", module_path!()) }
        }
        impl #gi From<Event #gt> for () #wh { fn from(_: Event #gt) {} }
    });
    if let Some(d) = attrs.iter().find(|a| a.0 == "generate_deposit") {
        let sig: TokenStream = d.1.clone();
        // `pub(super) fn deposit_event`
        let v: Visible = syn::parse2(sig)?;
        let vis = v.0;
        let ty = if generic { quote!(Event<#tg>) } else { quote!(Event) };
        out.extend(quote! {
            impl<#ig> Pallet<#tg> {
                #vis fn deposit_event(event: #ty) {
                    let event = <<T as #cg>::RuntimeEvent as From<#ty>>::from(event);
                    let event = <<T as #cg>::RuntimeEvent as Into<<T as frame_system::Config>::RuntimeEvent>>::into(event);
                    <frame_system::Pallet<T>>::deposit_event(event)
                }
            }
        });
    }
    Ok(out)
}

struct Visible(syn::Visibility);
impl syn::parse::Parse for Visible {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let v = i.parse()?;
        i.parse::<Token![fn]>()?;
        i.parse::<syn::Ident>()?;
        Ok(Visible(v))
    }
}

fn storage(t: &mut syn::ItemType, attrs: &[(String, TokenStream)], ig: &TokenStream, tg: &TokenStream, instance: bool) -> Result<TokenStream> {
    let name = &t.ident;
    let text = attrs
        .iter()
        .find(|a| a.0 == "storage_prefix")
        .map(|a| a.1.clone())
        .unwrap_or_else(|| syn::LitStr::new(&name.to_string(), name.span()).to_token_stream());
    let prefix = format_ident!("_GeneratedPrefixForStorage{}", name);
    let Type::Path(p) = &mut *t.ty else { return Err(Error::new(t.ty.span(), "storage type")) };
    let seg = p.path.segments.last_mut().unwrap();
    let kind = seg.ident.to_string();
    let syn::PathArguments::AngleBracketed(a) = &mut seg.arguments else {
        return Err(Error::new(seg.span(), "storage arguments"));
    };
    a.args[0] = parse_quote!(#prefix<#tg>);
    let arg = |n: usize| a.args.iter().nth(n).map(|x| x.to_token_stream());
    let (keys, value, q): (Vec<TokenStream>, TokenStream, usize) = match kind.as_str() {
        "StorageValue" => (vec![], arg(1).unwrap(), 2),
        "StorageMap" | "CountedStorageMap" => (vec![arg(2).unwrap()], arg(3).unwrap(), 4),
        "StorageDoubleMap" => (vec![arg(2).unwrap(), arg(4).unwrap()], arg(5).unwrap(), 6),
        _ => return Err(Error::new(t.span(), "this kind of storage is not supported")),
    };
    let query = match arg(q) {
        Some(x) if x.to_string().ends_with("ValueQuery") => quote!(#value),
        _ => quote!(Option<#value>),
    };
    let mut out = if instance {
        quote!(#[doc(hidden)] pub struct #prefix<T, I>(::core::marker::PhantomData<(T, I)>);)
    } else {
        quote!(#[doc(hidden)] pub struct #prefix<T>(::core::marker::PhantomData<(T,)>);)
    };
    out.extend(quote! {
        impl<#ig> frame_support::traits::StorageInstance for #prefix<#tg> {
            fn pallet_prefix() -> &'static str { <Pallet<#tg> as frame_support::traits::PalletInfoAccess>::name() }
            const STORAGE_PREFIX: &'static str = #text;
        }
    });
    if let Some(g) = attrs.iter().find(|a| a.0 == "getter") {
        let body = &g.1;
        let f: Getter = syn::parse2(body.clone())?;
        let f = f.0;
        let full = quote!(#name::<#tg>);
        let m = match keys.len() {
            0 => quote!(pub fn #f() -> #query { #full::get() }),
            1 => {
                let k = &keys[0];
                quote!(pub fn #f<KArg: frame_support::codec::EncodeLike<#k>>(k: KArg) -> #query { #full::get(k) })
            }
            _ => {
                let (k, l) = (&keys[0], &keys[1]);
                quote! {
                    pub fn #f<KArg1: frame_support::codec::EncodeLike<#k>, KArg2: frame_support::codec::EncodeLike<#l>>(k1: KArg1, k2: KArg2) -> #query {
                        #full::get(k1, k2)
                    }
                }
            }
        };
        out.extend(quote!(impl<#ig> Pallet<#tg> { #m }));
    }
    Ok(out)
}

struct Getter(syn::Ident);
impl syn::parse::Parse for Getter {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        i.parse::<Token![fn]>()?;
        Ok(Getter(i.parse()?))
    }
}

fn type_value(f: &syn::ItemFn) -> TokenStream {
    let (attrs, vis, name, block) = (&f.attrs, &f.vis, &f.sig.ident, &f.block);
    let ret = match &f.sig.output {
        syn::ReturnType::Type(_, t) => t.to_token_stream(),
        syn::ReturnType::Default => quote!(()),
    };
    let (gi, gt, wh) = f.sig.generics.split_for_impl();
    let params: Vec<_> = f.sig.generics.type_params().map(|p| p.ident.clone()).collect();
    let g = &f.sig.generics;
    quote! {
        #(#attrs)*
        #vis struct #name #g (::core::marker::PhantomData<(#(#params,)*)>) #wh;
        impl #gi frame_support::traits::Get<#ret> for #name #gt #wh { fn get() -> #ret #block }
    }
}
