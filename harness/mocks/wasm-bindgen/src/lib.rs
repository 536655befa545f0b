//! Stand-in for wasm-bindgen: just enough of the value model for the WebUSB client, natively.
use std::{any::Any, fmt, sync::Arc};

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Str(String),
    Obj(Arc<dyn Any + Send + Sync>),
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.into())
    }
    pub fn obj<T: Any + Send + Sync>(t: T) -> JsValue {
        JsValue::Obj(Arc::new(t))
    }
    pub fn get<T: Any + Clone>(&self) -> Option<T> {
        match self {
            JsValue::Obj(o) => o.downcast_ref::<T>().cloned(),
            _ => None,
        }
    }
    pub fn dyn_ref<T: Any>(&self) -> Option<&T> {
        match self {
            JsValue::Obj(o) => o.downcast_ref::<T>(),
            _ => None,
        }
    }
    pub fn unchecked_ref<T: Any>(&self) -> &T {
        self.dyn_ref().expect("unchecked_ref")
    }
    pub fn is_null(&self) -> bool {
        false
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Str(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s)
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Str(s) => write!(f, "JsValue({s:?})"),
            JsValue::Obj(_) => write!(f, "JsValue(Object)"),
        }
    }
}

pub trait JsCast: Sized + Into<JsValue> {
    fn from_js(v: &JsValue) -> Option<Self>;
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Clone,
    {
        let v: JsValue = self.clone().into();
        T::from_js(&v).ok_or(self)
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        let v: JsValue = self.into();
        T::from_js(&v).expect("unchecked_into")
    }
    fn is_instance_of<T: JsCast>(&self) -> bool
    where
        Self: Clone,
    {
        let v: JsValue = self.clone().into();
        T::from_js(&v).is_some()
    }
}
impl JsCast for JsValue {
    fn from_js(v: &JsValue) -> Option<Self> {
        Some(v.clone())
    }
}
/// Object types: convertible both ways, as in the real crate (unchecked there)
#[macro_export]
macro_rules! js_object {
    ($t:ty) => {
        impl From<$t> for $crate::JsValue {
            fn from(t: $t) -> $crate::JsValue {
                $crate::JsValue::obj(t)
            }
        }
        impl From<$crate::JsValue> for $t {
            fn from(v: $crate::JsValue) -> $t {
                v.get::<$t>().expect(concat!("not a ", stringify!($t)))
            }
        }
        impl $crate::JsCast for $t {
            fn from_js(v: &$crate::JsValue) -> Option<Self> {
                v.get::<$t>()
            }
        }
    };
}
pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
pub mod prelude {
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
}
