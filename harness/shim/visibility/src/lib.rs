//! `#[visibility::make(pub)]`: gives an item another visibility.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn make(vis: TokenStream, item: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = item.into_iter().collect();
    let mut i = 0;
    // attributes come first
    while matches!(&t[i], TokenTree::Punct(p) if p.as_char() == '#') {
        i += 2;
    }
    let mut out: Vec<TokenTree> = t[..i].to_vec();
    if matches!(&t[i], TokenTree::Ident(x) if x.to_string() == "pub") {
        i += 1;
        if matches!(&t[i], TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis) {
            i += 1;
        }
    }
    out.extend(vis);
    out.extend(t[i..].iter().cloned());
    out.into_iter().collect()
}
