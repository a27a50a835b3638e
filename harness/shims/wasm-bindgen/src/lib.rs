#[derive(Debug, Clone, PartialEq)]
pub struct JsValue(pub String);
impl JsValue { pub fn from_str(s: &str) -> JsValue { JsValue(s.to_string()) } }
impl From<&str> for JsValue { fn from(s: &str) -> JsValue { JsValue(s.to_string()) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue(s) } }
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> JsError { JsError(s.to_string()) } }
impl From<JsError> for JsValue { fn from(s: JsError) -> JsValue { JsValue(s.0) } }
pub mod prelude { pub use super::{JsError, JsValue}; pub use wasm_bindgen_macro::wasm_bindgen; }
pub use wasm_bindgen_macro::wasm_bindgen;
