//! Stand-in for js-sys.
use std::{
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};
use wasm_bindgen::{js_object, JsValue};

#[derive(Default)]
struct PState {
    done: Option<Result<JsValue, JsValue>>,
    wakers: Vec<Waker>,
}
/// A promise; whoever made it settles it
#[derive(Clone, Default)]
pub struct Promise(Arc<Mutex<PState>>);
js_object!(Promise);
impl Promise {
    pub fn resolve(v: &JsValue) -> Promise {
        let p = Promise::default();
        p.settle(Ok(v.clone()));
        p
    }
    pub fn reject(v: &JsValue) -> Promise {
        let p = Promise::default();
        p.settle(Err(v.clone()));
        p
    }
    /// sim only
    pub fn settle(&self, r: Result<JsValue, JsValue>) {
        let mut s = self.0.lock().unwrap();
        if s.done.is_none() {
            s.done = Some(r);
        }
        for w in s.wakers.drain(..) {
            w.wake();
        }
    }
}
impl Future for Promise {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        match &s.done {
            Some(r) => Poll::Ready(r.clone()),
            None => {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

#[derive(Clone, Default)]
pub struct Array(pub Vec<JsValue>);
js_object!(Array);
impl Array {
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn iter(&self) -> impl Iterator<Item = JsValue> + '_ {
        self.0.iter().cloned()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.clone()
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

#[derive(Clone)]
pub struct ArrayBuffer(pub Arc<Vec<u8>>, JsValue);
impl ArrayBuffer {
    pub fn from_vec(v: Vec<u8>) -> Self {
        let v = Arc::new(v);
        ArrayBuffer(v.clone(), JsValue::Obj(v))
    }
    pub fn byte_length(&self) -> u32 {
        self.0.len() as u32
    }
}
impl std::ops::Deref for ArrayBuffer {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.1
    }
}
impl From<ArrayBuffer> for JsValue {
    fn from(b: ArrayBuffer) -> JsValue {
        b.1
    }
}
/// A window of a buffer
#[derive(Clone)]
pub struct DataView(pub ArrayBuffer, pub usize, pub usize);
js_object!(DataView);
impl DataView {
    pub fn new(b: &ArrayBuffer, off: usize, len: usize) -> Self {
        DataView(b.clone(), off, len)
    }
    pub fn buffer(&self) -> ArrayBuffer {
        self.0.clone()
    }
    pub fn byte_length(&self) -> usize {
        self.2
    }
    pub fn byte_offset(&self) -> usize {
        self.1
    }
    pub fn get_uint8(&self, i: usize) -> u8 {
        self.0 .0[self.1..self.1 + self.2][i]
    }
}
#[derive(Clone, Default)]
pub struct Uint8Array(Arc<Mutex<Vec<u8>>>);
js_object!(Uint8Array);
impl Uint8Array {
    pub fn new(v: &JsValue) -> Self {
        match v {
            JsValue::Obj(o) => {
                if let Some(b) = o.downcast_ref::<Vec<u8>>() {
                    return Self(Arc::new(Mutex::new(b.clone())));
                }
                if let Some(u) = o.downcast_ref::<Uint8Array>() {
                    return Self(Arc::new(Mutex::new(u.to_vec())));
                }
                Self::default()
            }
            _ => Self::default(),
        }
    }
    pub fn new_with_length(n: u32) -> Self {
        Self(Arc::new(Mutex::new(vec![0; n as usize])))
    }
    pub fn new_with_byte_offset(v: &JsValue, off: u32) -> Self {
        Self(Arc::new(Mutex::new(Self::new(v).to_vec()[off as usize..].to_vec())))
    }
    pub fn new_with_byte_offset_and_length(v: &JsValue, off: u32, len: u32) -> Self {
        Self(Arc::new(Mutex::new(Self::new(v).to_vec()[off as usize..(off + len) as usize].to_vec())))
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.lock().unwrap().clone()
    }
    pub fn length(&self) -> u32 {
        self.0.lock().unwrap().len() as u32
    }
    pub fn byte_length(&self) -> u32 {
        self.length()
    }
    pub fn copy_to(&self, dst: &mut [u8]) {
        dst.copy_from_slice(&self.to_vec())
    }
    pub fn copy_from(&self, src: &[u8]) {
        self.0.lock().unwrap().copy_from_slice(src)
    }
    pub fn subarray(&self, a: u32, b: u32) -> Self {
        let v = self.to_vec();
        let e = (b as usize).min(v.len());
        Self(Arc::new(Mutex::new(v[(a as usize).min(e)..e].to_vec())))
    }
    pub fn slice(&self, a: u32, b: u32) -> Self {
        self.subarray(a, b)
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(v: &[u8]) -> Self {
        Self(Arc::new(Mutex::new(v.to_vec())))
    }
}
#[derive(Clone)]
pub struct Object;
