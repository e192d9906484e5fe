//! Takes out of the two runtimes what composes the pallets that are here: their configurations and all the glue these name.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{Item, UseTree};

/// the pallets that are here
const PALLETS: &[&str] = &[
    "currency", "orml_tokens", "supply", "escrow", "annuity", "reward", "staking", "farming", "btc_relay", "security", "vault_registry", "oracle", "issue",
    "redeem", "replace", "fee", "nomination", "clients_info", "loans", "dex_general", "dex_stable", "dex_swap_router", "pallet_timestamp", "frame_system",
];
/// of these, the ones configured by the harness
const OWN: &[&str] = &["frame_system"];
/// other crates that are here
const CRATES: &[&str] = &["bitcoin", "frame_support", "orml_traits", "sp_core", "sp_runtime", "sp_std", "codec", "primitives", "constants", "sp_arithmetic", "runtime_common", "pallet_authorship", "scale_info"];
/// what is wanted besides the configurations
const WANTED: &[&str] = &["DealWithFees", "get_all_module_accounts", "DustRemovalWhitelist", "EscrowAnnuityInstance", "VaultAnnuityInstance", "VaultId", "NativeCurrency", "FeeAccount", "TreasuryAccount", "SupplyAccount", "EscrowAnnuityAccount", "VaultAnnuityAccount", "FarmingAccount"];
/// provided by the harness
const PROVIDED: &[&str] = &["Runtime", "RuntimeCall", "RuntimeEvent", "RuntimeOrigin", "UncheckedExtrinsic", "weights", "dex", "contracts", "constants", "xcm_config", "evm", "System", "Block"];
/// the interfaces a node offers
const APIS: &[&str] = &["RewardApi", "EscrowApi", "VaultRegistryApi", "OracleApi", "BtcRelayApi", "IssueApi", "RedeemApi", "ReplaceApi", "LoansApi", "DexGeneralApi", "DexStableApi"];

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => drop(out.insert(i.to_string())),
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn of(t: &impl ToTokens) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    idents(t.to_token_stream(), &mut s);
    s
}
fn self_name(i: &syn::ItemImpl) -> String {
    match &*i.self_ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}
fn root(p: &syn::Path) -> String {
    p.segments[0].ident.to_string()
}
/// entries of a macro's body that end in a semicolon
fn entries(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ';');
        cur.push(t);
        if end {
            out.push(cur.drain(..).collect());
        }
    }
    out
}
/// the name an entry `pub const NAME: ..` declares
fn declared(ts: &TokenStream) -> Option<String> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    v.iter().enumerate().find_map(|(k, t)| match t {
        TokenTree::Punct(p) if p.as_char() == ':' => match &v[k - 1] {
            TokenTree::Ident(i) => Some(i.to_string()),
            _ => None,
        },
        _ => None,
    })
}
/// weights are not judged
fn plain(mut i: syn::ItemImpl) -> syn::ItemImpl {
    for x in i.items.iter_mut() {
        if let syn::ImplItem::Type(t) = x {
            if t.ident.to_string().ends_with("WeightInfo") {
                t.ty = syn::parse_quote!(());
            }
        }
    }
    i
}
fn gated(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && {
        let s = a.to_token_stream().to_string();
        s.contains("feature") && !s.contains("not")
    })
}
/// the leaves of a use that are wanted, from crates that are here
fn leaves(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            leaves(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) if n.ident == "self" => {
            let n = pre.last().unwrap().clone();
            out.push((pre[..pre.len() - 1].to_vec(), n))
        }
        UseTree::Name(n) => out.push((pre.clone(), n.ident.to_string())),
        UseTree::Rename(r) => out.push((pre.clone(), format!("{} as {}", r.ident, r.rename))),
        UseTree::Glob(_) => out.push((pre.clone(), "*".into())),
        UseTree::Group(g) => g.items.iter().for_each(|x| leaves(x, pre, out)),
    }
}

fn take(path: &str, also: &[TokenStream]) -> (TokenStream, TokenStream) {
    println!("cargo:rerun-if-changed={path}");
    let file = syn::parse_file(&std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"))).unwrap();
    let mut named: BTreeMap<String, Vec<TokenStream>> = BTreeMap::new();
    let mut uses: Vec<(Vec<String>, String, bool)> = vec![];
    let mut out: Vec<TokenStream> = vec![];
    let mut seen = BTreeSet::new();
    let mut wanted: BTreeSet<String> = WANTED.iter().map(|s| s.to_string()).collect();
    also.iter().for_each(|t| idents(t.clone(), &mut wanted));
    let mut construct = TokenStream::new();
    let mut apis = TokenStream::new();
    for item in file.items {
        let mut add = |n: String, t: TokenStream| named.entry(n).or_default().push(t);
        match item {
            Item::Use(u) => {
                let mut v = vec![];
                leaves(&u.tree, &mut vec![], &mut v);
                let public = !matches!(u.vis, syn::Visibility::Inherited);
                uses.extend(v.into_iter().map(|(p, n)| (p, n, public)));
            }
            Item::Struct(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Enum(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Trait(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Fn(i) if !gated(&i.attrs) => add(i.sig.ident.to_string(), i.to_token_stream()),
            Item::Const(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Static(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Type(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Mod(i) if !gated(&i.attrs) && i.content.is_some() => add(i.ident.to_string(), i.to_token_stream()),
            Item::Impl(i) if !gated(&i.attrs) => {
                let me = self_name(&i);
                if me == "Runtime" {
                    let Some((_, t, _)) = &i.trait_ else { continue };
                    let r = root(t);
                    let last = t.segments.last().unwrap().ident.to_string();
                    let ours = (last == "Config" && PALLETS.contains(&&*r) && !OWN.contains(&&*r)) || last == "SendTransactionTypes";
                    if ours {
                        let i = plain(i);
                        wanted.extend(of(&i));
                        out.push(i.to_token_stream());
                    }
                } else {
                    add(me, plain(i).to_token_stream())
                }
            }
            Item::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let body = m.mac.tokens.clone();
                match &*name {
                    "parameter_types" => {
                        for e in entries(body) {
                            if let Some(n) = declared(&e) {
                                add(n, quote!(frame_support::parameter_types! { #e }));
                            }
                        }
                    }
                    "parameter_type_with_key" => {
                        if let Some(n) = declared(&body) {
                            add(n, quote!(orml_traits::parameter_type_with_key! { #body }));
                        }
                    }
                    "construct_runtime" => {
                        let Some(TokenTree::Group(g)) = body.into_iter().last() else { panic!() };
                        let mut cur: Vec<TokenTree> = vec![];
                        for t in g.stream() {
                            let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ',');
                            cur.push(t);
                            if end {
                                let all: TokenStream = cur.drain(..).collect();
                                // Name : path
                                if let Some(TokenTree::Ident(p)) = all.clone().into_iter().nth(2) {
                                    if PALLETS.contains(&&*p.to_string()) {
                                        construct.extend(all);
                                    }
                                }
                            }
                        }
                    }
                    "impl_runtime_apis" => {
                        let f: syn::File = syn::parse2(body).unwrap();
                        for x in f.items {
                            let Item::Impl(i) = x else { continue };
                            let Some((_, t, _)) = &i.trait_ else { continue };
                            let n = t.segments.last().unwrap().ident.clone();
                            if !APIS.contains(&&*n.to_string()) {
                                continue;
                            }
                            let fns: Vec<_> = i.items.iter().filter_map(|x| if let syn::ImplItem::Fn(f) = x { Some(f) } else { None }).collect();
                            fns.iter().for_each(|f| wanted.extend(of(f)));
                            apis.extend(quote!(pub struct #n; impl #n { #(pub #fns)* }));
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    // all that is named, and what that names
    loop {
        let todo: Vec<String> = wanted.iter().filter(|n| !seen.contains(*n)).cloned().collect();
        if todo.is_empty() {
            break;
        }
        for n in todo {
            seen.insert(n.clone());
            if PROVIDED.contains(&&*n) {
                continue;
            }
            for t in named.remove(&n).unwrap_or_default() {
                idents(t.clone(), &mut wanted);
                out.push(t);
            }
        }
    }
    let uses = uses.iter().filter_map(|(p, n, public)| {
        let r = p.first().unwrap_or(n);
        if !(CRATES.contains(&&**r) || PALLETS.contains(&&**r)) || p.first().map_or(false, |s| s == "weights") || p.iter().any(|s| s == "limits") {
            return None;
        }
        let leaf = n.rsplit(" as ").next().unwrap();
        if leaf != "*" && !wanted.contains(leaf) || PROVIDED.contains(&leaf) || p.is_empty() {
            return None;
        }
        let all: TokenStream = format!("{}{}::{n}", if r == "constants" { "self::" } else { "" }, p.join("::")).parse().unwrap();
        Some(if *public { quote!(pub use #all;) } else { quote!(#[allow(unused_imports)] use #all;) })
    });
    let body = quote!(#(#uses)* #(#out)* #apis);
    (body, construct)
}
/// a whole file, without weights
fn whole(path: &str) -> TokenStream {
    println!("cargo:rerun-if-changed={path}");
    let file = syn::parse_file(&std::fs::read_to_string(path).unwrap()).unwrap();
    let items = file.items.into_iter().filter(|i| !matches!(i, Item::Use(u) if gated(&u.attrs))).map(|i| match i {
        Item::Impl(i) => plain(i).to_token_stream(),
        i => i.to_token_stream(),
    });
    quote!(#(#items)*)
}
/// the named items of a file, with what of the file these name
fn part(path: &str, roots: &[&str]) -> TokenStream {
    println!("cargo:rerun-if-changed={path}");
    let file = syn::parse_file(&std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"))).unwrap();
    let mut named: BTreeMap<String, Vec<TokenStream>> = BTreeMap::new();
    let mut uses = vec![];
    for item in file.items {
        let mut add = |n: String, t: TokenStream| named.entry(n).or_default().push(t);
        match item {
            Item::Use(u) if !gated(&u.attrs) => leaves(&u.tree, &mut vec![], &mut uses),
            Item::Struct(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Enum(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Fn(i) if !gated(&i.attrs) => add(i.sig.ident.to_string(), i.to_token_stream()),
            Item::Const(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Static(i) if !gated(&i.attrs) => add(i.ident.to_string(), i.to_token_stream()),
            Item::Type(mut i) if !gated(&i.attrs) => {
                i.vis = syn::parse_quote!(pub);
                add(i.ident.to_string(), i.to_token_stream())
            }
            Item::Mod(i) if !gated(&i.attrs) && i.content.is_some() => add(i.ident.to_string(), i.to_token_stream()),
            Item::Impl(i) if !gated(&i.attrs) && self_name(&i) != "Runtime" => add(self_name(&i), i.to_token_stream()),
            Item::Macro(m) => {
                let body = m.mac.tokens.clone();
                match &*m.mac.path.segments.last().unwrap().ident.to_string() {
                    "parameter_types" => {
                        for e in entries(body) {
                            if let Some(n) = declared(&e) {
                                add(n, quote!(frame_support::parameter_types! { #e }));
                            }
                        }
                    }
                    "parameter_type_with_key" => {
                        if let Some(n) = declared(&body) {
                            add(n, quote!(orml_traits::parameter_type_with_key! { #body }));
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    // a name that a module of the file exports stands for the module
    let local: BTreeMap<String, String> = uses.iter().filter(|(p, _)| p.len() == 1 && named.contains_key(&p[0])).map(|(p, n)| (n.clone(), p[0].clone())).collect();
    let (mut wanted, mut seen, mut out): (BTreeSet<String>, BTreeSet<String>, Vec<TokenStream>) = (roots.iter().map(|s| s.to_string()).collect(), BTreeSet::new(), vec![]);
    loop {
        let todo: Vec<String> = wanted.iter().filter(|n| !seen.contains(*n)).cloned().collect();
        if todo.is_empty() {
            break;
        }
        for n in todo {
            seen.insert(n.clone());
            if PROVIDED.contains(&&*n) {
                continue;
            }
            if let Some(m) = local.get(&n) {
                wanted.insert(m.clone());
            }
            for t in named.remove(&n).unwrap_or_default() {
                idents(t.clone(), &mut wanted);
                out.push(t);
            }
        }
    }
    let known = ["CurrencyId", "pallet_contracts", "frame_support", "orml_traits", "primitives", "codec", "sp_runtime", "sp_std", "sp_core", "btc_relay", "bitcoin"];
    let here = ["FixedConversionRateProvider", "AbsoluteReserveProvider"];
    let uses = uses.iter().filter_map(|(p, n)| {
        let r = p.first()?;
        let leaf = n.rsplit(" as ").next().unwrap();
        if leaf != "*" && !seen.contains(leaf) || PROVIDED.contains(&leaf) || ["Contains", "Convert", "Balance"].contains(&leaf) {
            return None;
        }
        // `use crate::CurrencyId::..`
        let p: Vec<String> = if r == "crate" { p[1..].to_vec() } else { p.clone() };
        let r = p.first()?;
        if !(known.contains(&&**r) || local.get(n) == Some(r) && seen.contains(r)) || here.contains(&leaf) || p.iter().any(|x| x == "location") {
            return None;
        }
        let all: TokenStream = format!("{}::{n}", p.join("::")).parse().unwrap();
        Some(if local.contains_key(n) { quote!(pub use #all;) } else { quote!(#[allow(unused_imports)] use #all;) })
    });
    quote!(#(#uses)* #(#out)*)
}
/// the pallets of a runtime, with a call of each that is not looked into
fn calls(path: &str) -> TokenStream {
    let file = syn::parse_file(&std::fs::read_to_string(path).unwrap()).unwrap();
    let body = file.items.into_iter().find_map(|i| match i {
        Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "construct_runtime" => m.mac.tokens.into_iter().last(),
        _ => None,
    });
    let Some(TokenTree::Group(g)) = body else { panic!("no construct_runtime in {path}") };
    let v: Vec<TokenTree> = g.stream().into_iter().collect();
    let mut names = vec![];
    let mut start = true;
    for t in v {
        match t {
            TokenTree::Ident(i) if start => {
                names.push(i);
                start = false;
            }
            TokenTree::Punct(p) if p.as_char() == ',' => start = true,
            _ => {}
        }
    }
    let (mut variants, mut name, mut all) = (quote!(), quote!(), quote!());
    for n in &names {
        let s = n.to_string();
        let t = if s == "PolkadotXcm" { quote!(pallet_xcm::Call<Runtime>) } else { quote!(Any) };
        variants.extend(quote!(#n(#t),));
        name.extend(quote!(RuntimeCall::#n(_) => #s,));
        if s != "PolkadotXcm" {
            all.extend(quote!(RuntimeCall::#n(Any),));
        }
    }
    quote! {
        #[derive(Clone, Debug)]
        pub enum RuntimeCall { #variants }
        impl Named for RuntimeCall {
            fn name(&self) -> &'static str { match self { #name } }
        }
        pub fn all() -> Vec<RuntimeCall> { vec![#all] }
    }
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    for name in ["kintsugi", "interlay"] {
        let at = format!("/repo/parachain/runtime/{name}/src");
        let dex = whole(&format!("{at}/dex.rs"));
        let constants = whole(&format!("{at}/constants.rs"));
        let (body, construct) = take(&format!("{at}/lib.rs"), &[dex.clone(), constants.clone()]);
        let filters = part(&format!("{at}/lib.rs"), &["BaseCallFilter"]);
        let xcm = part(&format!("{at}/xcm_config.rs"), &["CurrencyIdConvert", "Trader", "SafeCallFilter", "ParachainMinFee", "AccountIdToMultiLocation", "canonical_currency_location", "non_canonical_currency_location"]);
        let calls = calls(&format!("{at}/lib.rs"));
        let contracts = if name == "kintsugi" { part(&format!("{at}/contracts.rs"), &["BtcRelayExtension"]) } else { quote!() };
        let all = quote! {
            /// what the runtime takes from other chains
            pub mod messages {
                #[allow(unused_imports)]
                use super::{constants::currency::*, Tokens, TreasuryAccount, Runtime, Balance, AccountId, CurrencyId};
                #[allow(unused_imports)]
                use frame_support::{pallet_prelude::*, traits::Contains};
                #[allow(unused_imports)]
                use {sp_runtime::traits::Convert, orml_traits::MultiCurrency as _, codec::{Decode as _, Encode as _}};
                use crate::chain::*;
                #[allow(unused_imports)]
                use frame_support::weights::constants::{ExtrinsicBaseWeight, WEIGHT_REF_TIME_PER_SECOND};
                pub use self::calls::RuntimeCall;
                #xcm
                pub mod calls { use crate::chain::*; use super::Runtime; #calls }
                pub mod user {
                    use super::RuntimeCall;
                    use crate::chain::*;
                    use super::Runtime;
                    #[allow(unused_imports)]
                    use frame_support::traits::Contains;
                    #filters
                }
            }
            pub mod contracts {
                #[allow(unused_imports)]
                use {super::{Runtime, Balance}, crate::chain::pallet_contracts, codec::{Decode as _, Encode as _}};
                #contracts
            }
            #body
            frame_support::construct_runtime! { pub enum Runtime { #construct } }
            pub mod dex { #dex }
            pub mod constants { #constants }
        };
        std::fs::write(format!("{out}/{name}.rs"), all.to_string()).unwrap();
    }
    let at = "/repo/parachain/runtime/common/src/lib.rs";
    println!("cargo:rerun-if-changed={at}");
    let file = syn::parse_file(&std::fs::read_to_string(at).unwrap()).unwrap();
    // the parts that are about other chains are left out
    let out_of_reach = ["xcm", "xcm_executor", "pallet_aura", "ShouldExecute", "ProcessMessageError"];
    let items = file.items.into_iter().filter_map(|i| {
        let named = of(&i);
        match &i {
            Item::Use(u) => {
                let mut v = vec![];
                leaves(&u.tree, &mut vec![], &mut v);
                let public = !matches!(u.vis, syn::Visibility::Inherited);
                let keep = v.into_iter().filter(|(p, n)| !out_of_reach.contains(&&**p.first().unwrap_or(n)) && !out_of_reach.contains(&&**n)).map(|(mut p, n)| {
                    p.push(n);
                    let all: TokenStream = p.join("::").parse().unwrap();
                    if public { quote!(pub use #all;) } else { quote!(#[allow(unused_imports)] use #all;) }
                });
                Some(quote!(#(#keep)*))
            }
            Item::Mod(_) => None,
            _ if named.iter().any(|n| out_of_reach.contains(&&**n)) => None,
            _ => Some(i.to_token_stream()),
        }
    });
    std::fs::write(format!("{out}/common.rs"), quote!(#(#items)*).to_string()).unwrap();
    let _ = Group::stream;
}
