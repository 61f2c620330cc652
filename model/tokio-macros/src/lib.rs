//! The model's `#[tokio::test]`: the annotated function is dropped (the crate
//! under verification is never built with cfg(test) here).
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn test(_a: TokenStream, _i: TokenStream) -> TokenStream {
    TokenStream::new()
}
