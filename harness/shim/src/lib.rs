//! Stands in for the JavaScript side of serde-wasm-bindgen when the SDK is run natively: the
//! value a caller would pass as a JavaScript object is left in a thread-local beforehand.
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use wasm_bindgen::JsValue;

thread_local! { static NEXT: RefCell<Option<String>> = RefCell::new(None); }

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

/// the value that the next `from_value` calls on this thread deserialize
pub fn pass<T: Serialize>(v: &T) {
    NEXT.with(|n| *n.borrow_mut() = Some(serde_json::to_string(v).expect("argument")));
}
pub fn from_value<T: DeserializeOwned>(_v: JsValue) -> Result<T, Error> {
    NEXT.with(|n| match n.borrow().as_ref() {
        Some(s) => serde_json::from_str(s).map_err(|e| Error(e.to_string())),
        None => Err(Error("no argument was passed".into())),
    })
}
pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result<JsValue, Error> {
    let s = serde_json::to_string(v).map_err(|e| Error(e.to_string()))?;
    NEXT.with(|n| *n.borrow_mut() = Some(s));
    Ok(JsValue::NULL)
}
