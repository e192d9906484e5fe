//! `construct_runtime!`
use inflector::Inflector;
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{
    braced,
    parse::{Parse, ParseStream},
    Ident, LitInt, Result, Token, Visibility,
};

pub struct Part {
    name: Ident,
    path: Vec<Ident>,
    instance: Option<Ident>,
    parts: Vec<(String, bool)>,
    index: usize,
}

pub struct Runtime {
    name: Ident,
    pallets: Vec<Part>,
}

impl Parse for Runtime {
    fn parse(i: ParseStream) -> Result<Self> {
        i.parse::<Visibility>()?;
        if i.peek(Token![enum]) {
            i.parse::<Token![enum]>()?;
        } else {
            i.parse::<Token![struct]>()?;
        }
        let name = i.parse()?;
        if i.peek(Token![where]) {
            // the old form: where Block = ..., and so on
            while !i.peek(syn::token::Brace) {
                i.parse::<proc_macro2::TokenTree>()?;
            }
        }
        let body;
        braced!(body in i);
        let mut pallets = vec![];
        let mut next = 0;
        while !body.is_empty() {
            let pname: Ident = body.parse()?;
            body.parse::<Token![:]>()?;
            let mut path = vec![if body.peek(Token![crate]) {
                let c = body.parse::<Token![crate]>()?;
                Ident::new("crate", c.span)
            } else {
                body.parse::<Ident>()?
            }];
            let mut instance = None;
            let mut parts: Vec<(String, bool)> = vec![("Pallet".into(), false), ("Call".into(), false), ("Event".into(), true)];
            while body.peek(Token![::]) {
                body.parse::<Token![::]>()?;
                if body.peek(Token![<]) {
                    body.parse::<Token![<]>()?;
                    instance = Some(body.parse()?);
                    body.parse::<Token![>]>()?;
                } else if body.peek(syn::token::Brace) {
                    let list;
                    braced!(list in body);
                    parts.clear();
                    while !list.is_empty() {
                        let n: Ident = list.parse()?;
                        let mut generic = false;
                        if list.peek(Token![<]) {
                            list.parse::<Token![<]>()?;
                            list.parse::<Ident>()?;
                            list.parse::<Token![>]>()?;
                            generic = true;
                        }
                        parts.push((n.to_string(), generic));
                        if list.peek(Token![,]) {
                            list.parse::<Token![,]>()?;
                        }
                    }
                } else {
                    path.push(body.parse()?);
                }
            }
            let index = if body.peek(Token![=]) {
                body.parse::<Token![=]>()?;
                body.parse::<LitInt>()?.base10_parse()?
            } else {
                next
            };
            next = index + 1;
            if body.peek(Token![,]) {
                body.parse::<Token![,]>()?;
            }
            pallets.push(Part { name: pname, path, instance, parts, index });
        }
        Ok(Runtime { name, pallets })
    }
}

pub fn expand(r: Runtime) -> TokenStream {
    let rt = &r.name;
    let path = |p: &Part| {
        let s = &p.path;
        quote!(#(#s)::*)
    };
    let args = |p: &Part| match &p.instance {
        Some(i) => {
            let s = path(p);
            quote!(<#rt, #s::#i>)
        }
        None => quote!(<#rt>),
    };
    let with = |what: &str| -> Vec<&Part> { r.pallets.iter().filter(|p| p.parts.iter().any(|x| x.0 == what)).collect() };
    let generic = |p: &Part, what: &str| p.parts.iter().any(|x| x.0 == what && x.1);

    // aliases
    let aliases = r.pallets.iter().map(|p| {
        let (n, s, a) = (&p.name, path(p), args(p));
        quote!(pub type #n = #s::Pallet #a;)
    });
    let all: Vec<_> = r.pallets.iter().map(|p| &p.name).collect();
    let not_system: Vec<_> = r.pallets.iter().filter(|p| p.name != "System").map(|p| &p.name).collect();

    // events
    let ev = with("Event");
    let ev_name: Vec<_> = ev.iter().map(|p| p.name.clone()).collect();
    let ev_index: Vec<_> = ev.iter().map(|p| LitInt::new(&p.index.to_string(), p.name.span())).collect();
    let ev_ty: Vec<_> = ev
        .iter()
        .map(|p| {
            let (s, a) = (path(p), args(p));
            if generic(p, "Event") {
                quote!(#s::Event #a)
            } else {
                quote!(#s::Event)
            }
        })
        .collect();

    // calls
    let ca = with("Call");
    let ca_name: Vec<_> = ca.iter().map(|p| p.name.clone()).collect();
    let ca_text: Vec<_> = ca.iter().map(|p| p.name.to_string()).collect();
    let ca_index: Vec<_> = ca.iter().map(|p| LitInt::new(&p.index.to_string(), p.name.span())).collect();
    let ca_ty: Vec<_> = ca
        .iter()
        .map(|p| {
            let (s, a) = (path(p), args(p));
            quote!(#s::Call #a)
        })
        .collect();

    // genesis
    let ge = with("Config");
    let ge_name: Vec<_> = ge.iter().map(|p| format_ident!("{}", p.name.to_string().to_snake_case())).collect();
    let ge_ty: Vec<_> = ge
        .iter()
        .map(|p| {
            let (s, a) = (path(p), args(p));
            if generic(p, "Config") {
                quote!(#s::GenesisConfig #a)
            } else {
                quote!(#s::GenesisConfig)
            }
        })
        .collect();

    // info
    let pi_name = r.pallets.iter().map(|p| p.name.clone());
    let pi_text: Vec<_> = r.pallets.iter().map(|p| p.name.to_string()).collect();
    let pi_index: Vec<_> = r.pallets.iter().map(|p| p.index).collect();
    let pi_name2 = pi_name.clone();

    quote! {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct #rt;
        impl frame_support::scale_info::TypeInfo for #rt {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::opaque_type("Runtime", module_path!()) }
        }
        #(#aliases)*
        pub type AllPalletsWithSystem = (#(#all,)*);
        pub type AllPalletsWithoutSystem = (#(#not_system,)*);

        #[derive(Clone, PartialEq, Eq, Debug, frame_support::codec::Encode, frame_support::codec::Decode)]
        #[codec(crate = frame_support::codec)]
        #[allow(non_camel_case_types)]
        pub enum RuntimeEvent { #(#[codec(index = #ev_index)] #ev_name(#ev_ty),)* }
        impl frame_support::scale_info::TypeInfo for RuntimeEvent {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::opaque_type("RuntimeEvent", module_path!()) }
        }
        #(
            impl From<#ev_ty> for RuntimeEvent { fn from(e: #ev_ty) -> Self { RuntimeEvent::#ev_name(e) } }
            impl ::core::convert::TryInto<#ev_ty> for RuntimeEvent {
                type Error = ();
                #[allow(unreachable_patterns)]
                fn try_into(self) -> ::core::result::Result<#ev_ty, ()> { match self { RuntimeEvent::#ev_name(e) => Ok(e), _ => Err(()) } }
            }
        )*

        #[derive(Clone, PartialEq, Eq, Debug, frame_support::codec::Encode, frame_support::codec::Decode)]
        #[codec(crate = frame_support::codec)]
        pub enum RuntimeCall { #(#[codec(index = #ca_index)] #ca_name(#ca_ty),)* }
        impl frame_support::scale_info::TypeInfo for RuntimeCall {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::opaque_type("RuntimeCall", module_path!()) }
        }
        #(
            impl From<#ca_ty> for RuntimeCall { fn from(c: #ca_ty) -> Self { RuntimeCall::#ca_name(c) } }
            impl frame_support::traits::IsSubType<#ca_ty> for RuntimeCall {
                #[allow(unreachable_patterns)]
                fn is_sub_type(&self) -> Option<&#ca_ty> { match self { RuntimeCall::#ca_name(c) => Some(c), _ => None } }
            }
        )*
        impl frame_support::traits::UnfilteredDispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
                match self { #(RuntimeCall::#ca_name(c) => c.dispatch_bypass_filter(origin),)* }
            }
        }
        impl frame_support::dispatch::Dispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            type Config = RuntimeCall;
            type Info = frame_support::dispatch::DispatchInfo;
            type PostInfo = frame_support::dispatch::PostDispatchInfo;
            fn dispatch(self, origin: RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
                if !frame_support::traits::OriginTrait::filter_call(&origin, &self) {
                    return Err(frame_system::Error::<#rt>::CallFiltered.into());
                }
                frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
            }
        }
        impl frame_support::dispatch::GetDispatchInfo for RuntimeCall {
            fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
                match self { #(RuntimeCall::#ca_name(c) => c.get_dispatch_info(),)* }
            }
        }
        impl frame_support::traits::GetCallMetadata for RuntimeCall {
            fn get_module_names() -> &'static [&'static str] { &[#(#ca_text),*] }
            fn get_call_names(module: &str) -> &'static [&'static str] {
                use frame_support::traits::GetCallName;
                match module { #(#ca_text => <#ca_ty>::get_call_names(),)* _ => panic!("no such module") }
            }
            fn get_call_metadata(&self) -> frame_support::traits::CallMetadata {
                use frame_support::traits::GetCallName;
                match self {
                    #(RuntimeCall::#ca_name(c) => frame_support::traits::CallMetadata { function_name: c.get_call_name(), pallet_name: #ca_text },)*
                }
            }
        }

        pub type RuntimeOrigin = frame_system::MiniOrigin<<#rt as frame_system::Config>::AccountId, RuntimeCall, #rt>;
        pub type OriginCaller = frame_system::MiniCaller<<#rt as frame_system::Config>::AccountId>;

        #[derive(Default)]
        pub struct RuntimeGenesisConfig { #(pub #ge_name: #ge_ty,)* }
        impl frame_support::sp_runtime::BuildStorage for RuntimeGenesisConfig {
            fn assimilate_storage(&self, s: &mut frame_support::sp_core::storage::Storage) -> ::core::result::Result<(), String> {
                #(self.#ge_name.assimilate_storage(s)?;)*
                Ok(())
            }
        }

        pub struct PalletInfo;
        impl frame_support::traits::PalletInfo for PalletInfo {
            fn index<P: 'static>() -> Option<usize> {
                let t = ::core::any::TypeId::of::<P>();
                #(if t == ::core::any::TypeId::of::<#pi_name>() { return Some(#pi_index); })*
                None
            }
            fn name<P: 'static>() -> Option<&'static str> {
                let t = ::core::any::TypeId::of::<P>();
                #(if t == ::core::any::TypeId::of::<#pi_name2>() { return Some(#pi_text); })*
                None
            }
        }
    }
}
