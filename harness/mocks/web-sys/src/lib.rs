//! Stand-in for web-sys: a simulated WebUSB with one scripted bus per thread.
use std::{
    cell::RefCell,
    collections::VecDeque,
    sync::{Arc, Mutex},
};
use js_sys::{Array, ArrayBuffer, DataView, Promise, Uint8Array};
use wasm_bindgen::{js_object, JsValue};

pub mod sim {
    use super::*;

    #[derive(Clone, Debug)]
    pub enum InEv {
        Data(Vec<u8>),
        NoData,
        Status(UsbTransferStatus),
        Reject,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum OutEv {
        Ok,
        Status(UsbTransferStatus),
        Reject,
        /// the call itself throws
        Throw,
    }
    pub struct Dev {
        pub vid: u16,
        pub id: usize,
        pub opened: u32,
        pub claimed: Vec<u8>,
        pub open_fails: bool,
        pub claim_fails: bool,
        /// every OUT transfer, in order: endpoint, bytes, whether it was reported done
        pub outs: Vec<(u8, Vec<u8>)>,
        /// result of the next OUT transfers (Ok when empty)
        pub out_results: VecDeque<OutEv>,
        /// OUT transfers that may complete now; more wait
        pub out_permits: usize,
        pub out_waiting: VecDeque<(Promise, OutEv, u32)>,
        pub in_queue: VecDeque<InEv>,
        pub in_waiting: VecDeque<(u32, Promise)>,
        pub in_eps: Vec<u8>,
        pub in_lens: Vec<u32>,
    }
    impl Dev {
        pub fn new(vid: u16, id: usize) -> Dev {
            Dev {
                vid,
                id,
                opened: 0,
                claimed: vec![],
                open_fails: false,
                claim_fails: false,
                outs: vec![],
                out_results: VecDeque::new(),
                out_permits: usize::MAX,
                out_waiting: VecDeque::new(),
                in_queue: VecDeque::new(),
                in_waiting: VecDeque::new(),
                in_eps: vec![],
                in_lens: vec![],
            }
        }
        /// complete whatever can be completed
        pub fn pump(&mut self) {
            while self.out_permits > 0 {
                let Some((p, r, n)) = self.out_waiting.pop_front() else { break };
                if self.out_permits != usize::MAX {
                    self.out_permits -= 1;
                }
                p.settle(match r {
                    OutEv::Ok => Ok(JsValue::obj(UsbOutTransferResult(UsbTransferStatus::Ok, n))),
                    OutEv::Status(s) => Ok(JsValue::obj(UsbOutTransferResult(s, 0))),
                    OutEv::Reject | OutEv::Throw => Err(JsValue::from_str("NetworkError")),
                });
            }
            while !self.in_waiting.is_empty() && !self.in_queue.is_empty() {
                let (_, p) = self.in_waiting.pop_front().unwrap();
                let e = self.in_queue.pop_front().unwrap();
                p.settle(match e {
                    InEv::Data(d) => Ok(JsValue::obj(UsbInTransferResult(UsbTransferStatus::Ok, Some(d)))),
                    InEv::NoData => Ok(JsValue::obj(UsbInTransferResult(UsbTransferStatus::Ok, None))),
                    InEv::Status(s) => Ok(JsValue::obj(UsbInTransferResult(s, None))),
                    InEv::Reject => Err(JsValue::from_str("NetworkError")),
                });
            }
        }
    }
    pub type Handle = Arc<Mutex<Dev>>;
    #[derive(Default)]
    pub struct World {
        pub paired: Vec<Handle>,
        /// what the user picks when asked
        pub on_request: Option<Handle>,
        pub requests: Vec<String>,
    }
    thread_local! {
        pub static WORLD: RefCell<World> = RefCell::new(World::default());
    }
    pub fn install(w: World) {
        WORLD.with(|x| *x.borrow_mut() = w);
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum UsbTransferStatus {
    Ok = 0,
    Stall = 1,
    Babble = 2,
    __Invalid,
}
#[derive(Clone)]
pub struct UsbInTransferResult(UsbTransferStatus, Option<Vec<u8>>);
js_object!(UsbInTransferResult);
impl UsbInTransferResult {
    pub fn status(&self) -> UsbTransferStatus {
        self.0
    }
    pub fn data(&self) -> Option<DataView> {
        self.1.as_ref().map(|d| {
            let b = ArrayBuffer::from_vec(d.clone());
            DataView::new(&b, 0, d.len())
        })
    }
}
#[derive(Clone)]
pub struct UsbOutTransferResult(UsbTransferStatus, u32);
js_object!(UsbOutTransferResult);
impl UsbOutTransferResult {
    pub fn status(&self) -> UsbTransferStatus {
        self.0
    }
    pub fn bytes_written(&self) -> u32 {
        self.1
    }
}
pub struct UsbDeviceRequestOptions(JsValue);
impl From<JsValue> for UsbDeviceRequestOptions {
    fn from(v: JsValue) -> Self {
        Self(v)
    }
}

pub struct Window;
impl Window {
    pub fn navigator(&self) -> Navigator {
        Navigator
    }
}
pub struct Navigator;
impl Navigator {
    pub fn usb(&self) -> Usb {
        Usb
    }
}
pub struct Usb;
impl Usb {
    pub fn get_devices(&self) -> Promise {
        sim::WORLD.with(|w| {
            let v = w.borrow().paired.iter().map(|d| JsValue::obj(UsbDevice(d.clone()))).collect();
            Promise::resolve(&JsValue::obj(Array(v)))
        })
    }
    pub fn request_device(&self, o: &UsbDeviceRequestOptions) -> Promise {
        sim::WORLD.with(|w| {
            let mut w = w.borrow_mut();
            w.requests.push(o.0.as_string().unwrap_or_default());
            match &w.on_request {
                Some(d) => Promise::resolve(&JsValue::obj(UsbDevice(d.clone()))),
                None => Promise::reject(&JsValue::from_str("NotFoundError")),
            }
        })
    }
}

#[derive(Clone)]
pub struct UsbDevice(sim::Handle);
js_object!(UsbDevice);
impl UsbDevice {
    pub fn vendor_id(&self) -> u16 {
        self.0.lock().unwrap().vid
    }
    pub fn opened(&self) -> bool {
        self.0.lock().unwrap().opened > 0
    }
    pub fn open(&self) -> Promise {
        let mut d = self.0.lock().unwrap();
        if d.open_fails {
            return Promise::reject(&JsValue::from_str("SecurityError"));
        }
        d.opened += 1;
        Promise::resolve(&JsValue::Undefined)
    }
    pub fn close(&self) -> Promise {
        Promise::resolve(&JsValue::Undefined)
    }
    pub fn claim_interface(&self, i: u8) -> Promise {
        let mut d = self.0.lock().unwrap();
        if d.claim_fails || d.opened == 0 {
            return Promise::reject(&JsValue::from_str("InvalidStateError"));
        }
        d.claimed.push(i);
        Promise::resolve(&JsValue::Undefined)
    }
    fn out(&self, ep: u8, data: Vec<u8>) -> Result<Promise, JsValue> {
        let mut d = self.0.lock().unwrap();
        let r = d.out_results.pop_front().unwrap_or(sim::OutEv::Ok);
        if r == sim::OutEv::Throw {
            return Err(JsValue::from_str("InvalidStateError"));
        }
        let n = data.len() as u32;
        d.outs.push((ep, data));
        let p = Promise::default();
        d.out_waiting.push_back((p.clone(), r, n));
        d.pump();
        Ok(p)
    }
    pub fn transfer_out_with_u8_array(&self, ep: u8, data: &Uint8Array) -> Result<Promise, JsValue> {
        self.out(ep, data.to_vec())
    }
    pub fn transfer_out_with_u8_slice(&self, ep: u8, data: &mut [u8]) -> Result<Promise, JsValue> {
        self.out(ep, data.to_vec())
    }
    pub fn transfer_in(&self, ep: u8, len: u32) -> Promise {
        let p = Promise::default();
        let mut d = self.0.lock().unwrap();
        d.in_eps.push(ep);
        d.in_lens.push(len);
        d.in_waiting.push_back((len, p.clone()));
        d.pump();
        p
    }
}
