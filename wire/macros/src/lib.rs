//! Stand-in for wolfram_library_link's #[export]: keeps the function and makes it public.
use proc_macro::{Ident, Span, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn export(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut v: Vec<TokenTree> = item.into_iter().collect();
    let is = |t: &TokenTree, s: &str| matches!(t, TokenTree::Ident(i) if i.to_string() == s);
    let at = v.iter().position(|t| is(t, "fn")).expect("a function");
    let at = v[..at].iter().position(|t| is(t, "unsafe") || is(t, "extern")).unwrap_or(at);
    // `pub` as it is, `pub(crate)` and nothing become `pub`
    match v[..at].iter().position(|t| is(t, "pub")) {
        Some(p) => { v.drain(p + 1..at); }
        None => v.insert(at, TokenTree::Ident(Ident::new("pub", Span::call_site()))),
    }
    v.into_iter().collect()
}
