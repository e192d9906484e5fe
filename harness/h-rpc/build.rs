//! Takes the nodes' RPC servers and the interfaces they ask as they are; only the macros of the missing crates are expanded here.
use quote::quote;
use syn::{parse_quote, Item};

const CRATES: &[&str] = &["oracle", "btc-relay", "issue", "redeem", "replace", "escrow", "reward", "vault-registry", "loans", "dex-general", "dex-stable"];

fn items(path: &str) -> Vec<Item> {
    println!("cargo:rerun-if-changed={path}");
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    syn::parse_file(&t).unwrap_or_else(|e| panic!("{path}: {e}")).items
}
/// what decl_runtime_apis! makes: a trait over the block, each answer at a block, which may be a trap
fn api(mut t: syn::ItemTrait) -> Item {
    t.generics.params.insert(0, parse_quote!(Block: sp_runtime::traits::Block));
    for i in &mut t.items {
        let syn::TraitItem::Fn(f) = i else { continue };
        let name = f.sig.ident.to_string();
        let args: Vec<_> = f
            .sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Typed(p) => p.pat.clone(),
                _ => panic!("self in {name}"),
            })
            .collect();
        let out: syn::Type = match &f.sig.output {
            syn::ReturnType::Default => parse_quote!(()),
            syn::ReturnType::Type(_, t) => (**t).clone(),
        };
        f.sig.output = parse_quote!(-> Result<#out, sp_api::ApiError>);
        f.sig.inputs.insert(0, parse_quote!(at: Block::Hash));
        f.sig.inputs.insert(0, parse_quote!(&self));
        f.default = Some(parse_quote!({ sp_api::answer(#name, &at, &(#(#args,)*)) }));
        f.semi_token = None;
    }
    Item::Trait(t)
}
fn is(a: &syn::Attribute, n: &str) -> bool {
    a.path().segments.last().map_or(false, |s| s.ident == n)
}
fn main() {
    let mut out = quote!();
    let names: Vec<_> = CRATES.iter().map(|c| quote::format_ident!("{}_rpc_runtime_api", c.replace('-', "_"))).collect();
    out.extend(quote!(pub mod all_apis { #(pub use super::#names;)* }));
    for c in CRATES {
        let m = c.replace('-', "_");
        let (api_mod, rpc_mod) = (quote::format_ident!("{m}_rpc_runtime_api"), quote::format_ident!("{m}_rpc"));
        let mut decl = vec![];
        for i in items(&format!("/repo/crates/{c}/rpc/runtime-api/src/lib.rs")) {
            match i {
                Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "decl_runtime_apis" => {
                    let f: syn::File = syn::parse2(m.mac.tokens).unwrap();
                    decl.extend(f.items.into_iter().map(|i| match i {
                        Item::Trait(t) => api(t),
                        i => i,
                    }));
                }
                i => decl.push(i),
            }
        }
        let mut rpc = vec![];
        let mut methods = vec![];
        for i in items(&format!("/repo/crates/{c}/rpc/src/lib.rs")) {
            match i {
                Item::Trait(mut t) if t.attrs.iter().any(|a| is(a, "rpc")) => {
                    t.attrs.retain(|a| !is(a, "rpc"));
                    t.ident = quote::format_ident!("{}Server", t.ident);
                    for i in &mut t.items {
                        let syn::TraitItem::Fn(f) = i else { continue };
                        let name = f.sig.ident.to_string();
                        f.attrs.retain(|a| {
                            if !is(a, "method") {
                                return true;
                            }
                            a.parse_nested_meta(|m| {
                                let v: syn::Expr = m.value()?.parse()?;
                                let all: Vec<syn::Expr> = match v {
                                    syn::Expr::Array(a) => a.elems.into_iter().collect(),
                                    v => vec![v],
                                };
                                methods.extend(all.into_iter().map(|v| quote!((#name, #v))));
                                Ok(())
                            })
                            .unwrap();
                            false
                        });
                    }
                    rpc.push(Item::Trait(t));
                }
                Item::Impl(mut i) => {
                    i.attrs.retain(|a| !is(a, "async_trait"));
                    rpc.push(Item::Impl(i));
                }
                i => rpc.push(i),
            }
        }
        out.extend(quote! {
            #[allow(unused, clippy::all)]
            pub mod #api_mod {
                use super::stand_in::sp_api;
                use super::all_apis::*;
                #(#decl)*
            }
            #[allow(unused, clippy::all)]
            pub mod #rpc_mod {
                use super::stand_in::{jsonrpsee, sp_api, sp_blockchain, sp_rpc};
                use super::all_apis::*;
                pub const METHODS: &[(&str, &str)] = &[#(#methods),*];
                #(#rpc)*
            }
        });
    }
    std::fs::write(format!("{}/rpc.rs", std::env::var("OUT_DIR").unwrap()), out.to_string()).unwrap();
}
