//! The part of FRAME's macros that the pallets of /repo use, written anew: see DESIGN.md.
use proc_macro::TokenStream;
mod nobound;
mod pallet;
mod runtime;
mod small;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let m = syn::parse_macro_input!(item as syn::ItemMod);
    pallet::expand(m).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro]
pub fn construct_runtime(input: TokenStream) -> TokenStream {
    let r = syn::parse_macro_input!(input as runtime::Runtime);
    runtime::expand(r).into()
}

#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    small::transactional(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    small::require_transactional(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_attribute]
pub fn storage_alias(_attr: TokenStream, item: TokenStream) -> TokenStream {
    small::storage_alias(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(item: TokenStream) -> TokenStream {
    nobound::clone(syn::parse_macro_input!(item)).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(item: TokenStream) -> TokenStream {
    nobound::debug(syn::parse_macro_input!(item)).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_no_bound(item: TokenStream) -> TokenStream {
    nobound::debug(syn::parse_macro_input!(item)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(item: TokenStream) -> TokenStream {
    nobound::partial_eq(syn::parse_macro_input!(item)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(item: TokenStream) -> TokenStream {
    nobound::eq(syn::parse_macro_input!(item)).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(item: TokenStream) -> TokenStream {
    nobound::default(syn::parse_macro_input!(item)).into()
}
