//! Stand-in for the crate const_env: a constant takes its value from the environment variable of its name, if there is one.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn env_item(_a: TokenStream, item: TokenStream) -> TokenStream {
    let s: Vec<TokenTree> = item.into_iter().collect();
    let name = s.iter().position(|t| t.to_string() == "const").map(|i| s[i + 1].to_string()).unwrap_or_default();
    match std::env::var(&name) {
        Ok(v) => {
            let eq = s.iter().position(|t| t.to_string() == "=").unwrap();
            let head: TokenStream = s[..=eq].iter().cloned().collect();
            format!("{} {};", head, v).parse().unwrap()
        }
        Err(_) => s.into_iter().collect(),
    }
}
