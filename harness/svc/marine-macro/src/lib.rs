//! Stand-in for marine's attribute: the item itself, made public (the real one
//! exports it to the host).
use proc_macro::{Delimiter, Ident, Span, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn marine(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = item.into_iter().collect();
    let mut i = 0;
    // skip attributes and doc comments
    while i + 1 < t.len() {
        match (&t[i], &t[i + 1]) {
            (TokenTree::Punct(p), TokenTree::Group(g))
                if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket =>
            {
                i += 2
            }
            _ => break,
        }
    }
    let mut out: Vec<TokenTree> = t[..i].to_vec();
    if let Some(TokenTree::Ident(w)) = t.get(i) {
        let w = w.to_string();
        if w == "fn" || w == "struct" || w == "enum" {
            out.push(Ident::new("pub", Span::call_site()).into());
        }
    }
    out.extend(t[i..].iter().cloned());
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn fce(attr: TokenStream, item: TokenStream) -> TokenStream {
    marine(attr, item)
}
