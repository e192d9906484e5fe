//! derives that put no bound on type parameters
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields};

fn pattern(f: &Fields, prefix: &str) -> (TokenStream, Vec<syn::Ident>) {
    match f {
        Fields::Named(n) => {
            let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            let vars: Vec<_> = names.iter().map(|n| format_ident!("{}{}", prefix, n)).collect();
            (quote!({ #(#names: #vars),* }), vars)
        }
        Fields::Unnamed(u) => {
            let vars: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("{}{}", prefix, i)).collect();
            (quote!(( #(#vars),* )), vars)
        }
        Fields::Unit => (quote!(), vec![]),
    }
}

fn build(f: &Fields, vals: &[TokenStream]) -> TokenStream {
    match f {
        Fields::Named(n) => {
            let names = n.named.iter().map(|f| f.ident.clone().unwrap());
            quote!({ #(#names: #vals),* })
        }
        Fields::Unnamed(_) => quote!(( #(#vals),* )),
        Fields::Unit => quote!(),
    }
}

/// (path, name, fields) of each variant; a struct has one
fn shapes(d: &DeriveInput) -> Vec<(TokenStream, String, Fields)> {
    let name = &d.ident;
    match &d.data {
        Data::Struct(s) => vec![(quote!(#name), name.to_string(), s.fields.clone())],
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let i = &v.ident;
                (quote!(#name::#i), i.to_string(), v.fields.clone())
            })
            .collect(),
        Data::Union(_) => panic!("unions are not supported"),
    }
}

pub fn clone(d: DeriveInput) -> TokenStream {
    let (ig, tg, wh) = d.generics.split_for_impl();
    let name = &d.ident;
    let arms = shapes(&d).into_iter().map(|(p, _, f)| {
        let (pat, vars) = pattern(&f, "a_");
        let vals: Vec<_> = vars.iter().map(|v| quote!(::core::clone::Clone::clone(#v))).collect();
        let b = build(&f, &vals);
        quote!(#p #pat => #p #b,)
    });
    quote! {
        #[automatically_derived]
        impl #ig ::core::clone::Clone for #name #tg #wh {
            fn clone(&self) -> Self { match self { #(#arms)* } }
        }
    }
}

pub fn debug(d: DeriveInput) -> TokenStream {
    let (ig, tg, wh) = d.generics.split_for_impl();
    let name = &d.ident;
    let arms = shapes(&d).into_iter().map(|(p, n, f)| {
        let (pat, vars) = pattern(&f, "a_");
        let body = match &f {
            Fields::Named(nf) => {
                let names = nf.named.iter().map(|f| f.ident.as_ref().unwrap().to_string());
                quote!(fmt.debug_struct(#n)#(.field(#names, #vars))*.finish())
            }
            Fields::Unnamed(_) => quote!(fmt.debug_tuple(#n)#(.field(#vars))*.finish()),
            Fields::Unit => quote!(fmt.write_str(#n)),
        };
        quote!(#p #pat => #body,)
    });
    quote! {
        #[automatically_derived]
        impl #ig ::core::fmt::Debug for #name #tg #wh {
            fn fmt(&self, fmt: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#arms)* } }
        }
    }
}

pub fn partial_eq(d: DeriveInput) -> TokenStream {
    let (ig, tg, wh) = d.generics.split_for_impl();
    let name = &d.ident;
    let arms = shapes(&d).into_iter().map(|(p, _, f)| {
        let (pa, va) = pattern(&f, "a_");
        let (pb, vb) = pattern(&f, "b_");
        quote!((#p #pa, #p #pb) => true #(&& #va == #vb)*,)
    });
    quote! {
        #[automatically_derived]
        impl #ig ::core::cmp::PartialEq for #name #tg #wh {
            #[allow(unreachable_patterns)]
            fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* _ => false } }
        }
    }
}

pub fn eq(d: DeriveInput) -> TokenStream {
    let (ig, tg, wh) = d.generics.split_for_impl();
    let name = &d.ident;
    quote! {
        #[automatically_derived]
        impl #ig ::core::cmp::Eq for #name #tg #wh {}
    }
}

pub fn default(d: DeriveInput) -> TokenStream {
    let (ig, tg, wh) = d.generics.split_for_impl();
    let name = &d.ident;
    let (path, fields) = match &d.data {
        Data::Struct(s) => (quote!(#name), s.fields.clone()),
        Data::Enum(e) => {
            let v = e
                .variants
                .iter()
                .find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
                .expect("a default variant");
            let i = &v.ident;
            (quote!(#name::#i), v.fields.clone())
        }
        Data::Union(_) => panic!("unions are not supported"),
    };
    let vals: Vec<_> = fields.iter().map(|_| quote!(::core::default::Default::default())).collect();
    let b = build(&fields, &vals);
    quote! {
        #[automatically_derived]
        impl #ig ::core::default::Default for #name #tg #wh {
            fn default() -> Self { #path #b }
        }
    }
}
