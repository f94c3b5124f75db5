//! The attribute leaves what it marks as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
