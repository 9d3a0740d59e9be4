//! `#[wasm_bindgen]` passes its item through: the Rust function is checked, the
//! generated JavaScript glue is outside every claim.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream { item }
