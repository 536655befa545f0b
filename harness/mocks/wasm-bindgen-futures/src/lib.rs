//! Stand-in for wasm-bindgen-futures on top of tokio's local tasks.
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};
use wasm_bindgen::JsValue;

pub struct JsFuture(js_sys::Promise);
impl From<js_sys::Promise> for JsFuture {
    fn from(p: js_sys::Promise) -> Self {
        JsFuture(p)
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
pub fn spawn_local<F: Future<Output = ()> + 'static>(f: F) {
    tokio::task::spawn_local(f);
}
