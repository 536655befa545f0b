//! Stand-in for gloo.
pub mod utils {
    pub fn window() -> web_sys::Window {
        web_sys::Window
    }
    pub mod format {
        use wasm_bindgen::JsValue;
        pub trait JsValueSerdeExt: Sized {
            fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<Self>;
        }
        impl JsValueSerdeExt for JsValue {
            fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<Self> {
                Ok(JsValue::Str(serde_json::to_string(t)?))
            }
        }
    }
}
