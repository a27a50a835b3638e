use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, t: TokenStream) -> TokenStream { t }
