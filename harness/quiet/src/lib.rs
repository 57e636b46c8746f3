//! Accepts `#[serde(..)]` attributes and generates nothing: stands in for
//! `serde::Serialize` in programs whose values are never serialized, to save build time.
use proc_macro::TokenStream;

#[proc_macro_derive(Quiet, attributes(serde))]
pub fn quiet(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

/// Another derive with attributes of its own.
#[proc_macro_derive(Other, attributes(other))]
pub fn other(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
