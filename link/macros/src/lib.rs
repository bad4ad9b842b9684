//! Stands in for the attribute of `wolfram-library-link`: an exported function is an ordinary public function.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn export(_: TokenStream, item: TokenStream) -> TokenStream {
    let ident = |t: &TokenTree, s: &str| matches!(t, TokenTree::Ident(i) if i.to_string() == s);
    let public = item.clone().into_iter().any(|t| ident(&t, "pub"));
    item.into_iter()
        .flat_map(|t| {
            let first = (!public && ident(&t, "fn")).then(|| "pub".parse::<TokenStream>().unwrap().into_iter().next().unwrap());
            first.into_iter().chain(Some(t))
        })
        .collect()
}
