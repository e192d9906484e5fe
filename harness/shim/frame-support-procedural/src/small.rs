use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{parse2, ItemFn, ItemType};

pub fn transactional(item: TokenStream) -> syn::Result<TokenStream> {
    let ItemFn { attrs, vis, sig, block } = parse2(item)?;
    Ok(quote! {
        #(#attrs)* #vis #sig {
            use frame_support::storage::{with_transaction, TransactionOutcome};
            with_transaction(|| {
                let r = (|| { #block })();
                if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) }
            })
        }
    })
}

pub fn require_transactional(item: TokenStream) -> syn::Result<TokenStream> {
    let ItemFn { attrs, vis, sig, block } = parse2(item)?;
    Ok(quote! {
        #(#attrs)* #vis #sig {
            if !frame_support::storage::transactional::is_transactional() {
                return Err(frame_support::sp_runtime::TransactionalError::NoLayer.into());
            }
            #block
        }
    })
}

/// `type X<T: Config> = StorageValue<Pallet<T>, ...>` outside a pallet module
pub fn storage_alias(item: TokenStream) -> syn::Result<TokenStream> {
    let mut t: ItemType = parse2(item)?;
    let prefix = format_ident!("{}_Storage_Instance", t.ident);
    let name = t.ident.to_string();
    let syn::Type::Path(p) = &mut *t.ty else { return Err(syn::Error::new_spanned(&t.ty, "storage type")) };
    let seg = p.path.segments.last_mut().unwrap();
    let syn::PathArguments::AngleBracketed(a) = &mut seg.arguments else {
        return Err(syn::Error::new_spanned(seg, "storage arguments"));
    };
    let first = a.args.first_mut().unwrap();
    let pallet = first.clone();
    let (ig, tg, wh) = t.generics.split_for_impl();
    *first = parse2(quote!(#prefix #tg))?;
    let params: Vec<_> = t.generics.type_params().map(|p| p.ident.clone()).collect();
    let pg = &t.generics;
    let vis = &t.vis;
    Ok(quote! {
        #[allow(non_camel_case_types)]
        #vis struct #prefix #pg (::core::marker::PhantomData<(#(#params,)*)>);
        impl #ig frame_support::traits::StorageInstance for #prefix #tg #wh {
            fn pallet_prefix() -> &'static str { <#pallet as frame_support::traits::PalletInfoAccess>::name() }
            const STORAGE_PREFIX: &'static str = #name;
        }
        #t
    })
}
