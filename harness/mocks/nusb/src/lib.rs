//! In-memory stand-in for `nusb` 0.1: a scripted USB bus. `sim` is the control side used by
//! the harness, the rest mirrors the public interface of nusb.
#![allow(clippy::all)]

use std::sync::{Arc, Mutex};

pub use std::io::Error;

pub mod sim {
    use super::transfer::{Direction, EndpointType, TransferError};
    use std::{
        cell::RefCell,
        collections::VecDeque,
        sync::{Arc, Mutex},
        task::Waker,
    };

    #[derive(Debug, Clone)]
    pub struct EpDesc {
        pub address: u8,
        pub ty: EndpointType,
        pub mps: usize,
    }
    impl EpDesc {
        pub fn dir(&self) -> Direction {
            if self.address & 0x80 != 0 {
                Direction::In
            } else {
                Direction::Out
            }
        }
    }
    #[derive(Debug, Clone)]
    pub struct IfDesc {
        /// bInterfaceNumber, not necessarily the position
        pub number: u8,
        pub class: u8,
        pub subclass: u8,
        pub alts: Vec<Vec<EpDesc>>,
    }
    #[derive(Debug, Clone)]
    pub struct DevDesc {
        pub serial: Option<String>,
        pub product: Option<String>,
        pub vid: u16,
        pub pid: u16,
        pub ifs: Vec<IfDesc>,
        pub open_fails: bool,
        pub claim_fails: bool,
    }

    #[derive(Debug, Clone, PartialEq)]
    pub enum InEv {
        /// a complete transfer from the device (at most the request size)
        Data(Vec<u8>),
        /// the transfer fails; Stall and Unknown leave the endpoint halted until clear_halt
        Err(TransferError),
    }

    #[derive(Default)]
    pub struct State {
        pub opened: Vec<usize>,
        pub claimed: Vec<(usize, u8)>,
        /// (interface, endpoint) of every queue made
        pub queues: Vec<(u8, u8)>,
        // IN
        pub in_events: VecDeque<InEv>,
        pub in_pending: VecDeque<usize>,
        pub in_done: VecDeque<(Vec<u8>, Result<(), TransferError>)>,
        pub halted: bool,
        pub clear_halt_fails: bool,
        pub clear_halts: usize,
        pub in_dropped: bool,
        pub(crate) in_waker: Option<Waker>,
        // OUT
        pub out_log: Vec<Vec<u8>>,
        pub out_pending: VecDeque<Vec<u8>>,
        pub out_done: VecDeque<(Vec<u8>, Result<(), TransferError>)>,
        /// how many OUT transfers may complete
        pub out_permits: usize,
        /// result of the n-th OUT transfer (Ok beyond the list)
        pub out_results: VecDeque<Result<(), TransferError>>,
        pub out_dropped: bool,
        pub(crate) out_waker: Option<Waker>,
        /// misuse of the nusb interface by the code under test
        pub misuse: Vec<String>,
        /// the device was unplugged: every transfer fails
        pub gone: bool,
        /// woken whenever transfers are submitted
        pub bus_waker: Option<Waker>,
    }
    impl State {
        pub fn pump(&mut self) {
            if self.gone {
                while self.in_pending.pop_front().is_some() {
                    self.in_done.push_back((vec![], Err(TransferError::Disconnected)));
                }
                while let Some(d) = self.out_pending.pop_front() {
                    self.out_done.push_back((d, Err(TransferError::Disconnected)));
                }
            }
            while !self.halted && !self.in_pending.is_empty() {
                let Some(ev) = self.in_events.pop_front() else { break };
                let cap = self.in_pending.pop_front().unwrap();
                match ev {
                    InEv::Data(mut d) => {
                        if d.len() > cap {
                            let rest = d.split_off(cap);
                            self.in_events.push_front(InEv::Data(rest));
                        }
                        self.in_done.push_back((d, Ok(())));
                    }
                    InEv::Err(e) => {
                        self.in_done.push_back((vec![], Err(e)));
                        self.halted = true;
                    }
                }
            }
            if !self.in_done.is_empty() {
                if let Some(w) = self.in_waker.take() {
                    w.wake();
                }
            }
            while self.out_permits > 0 && !self.out_pending.is_empty() {
                if self.out_permits != usize::MAX {
                    self.out_permits -= 1;
                }
                let d = self.out_pending.pop_front().unwrap();
                let r = self.out_results.pop_front().unwrap_or(Ok(()));
                self.out_done.push_back((d, r));
            }
            if !self.out_done.is_empty() {
                if let Some(w) = self.out_waker.take() {
                    w.wake();
                }
            }
        }
    }

    pub struct Bus {
        pub devs: Vec<DevDesc>,
        pub st: Arc<Mutex<State>>,
        pub list_fails: bool,
    }
    thread_local! { pub static BUS: RefCell<Option<Bus>> = const { RefCell::new(None) }; }

    /// Install the bus seen by `list_devices` on this thread
    pub fn install(devs: Vec<DevDesc>, list_fails: bool) -> Arc<Mutex<State>> {
        let st = Arc::new(Mutex::new(State { out_permits: usize::MAX, ..Default::default() }));
        BUS.with(|b| *b.borrow_mut() = Some(Bus { devs, st: st.clone(), list_fails }));
        st
    }
    pub fn push_in(st: &Arc<Mutex<State>>, evs: impl IntoIterator<Item = InEv>) {
        let mut s = st.lock().unwrap();
        s.in_events.extend(evs);
        s.pump();
    }
    pub fn permit_out(st: &Arc<Mutex<State>>, n: usize) {
        let mut s = st.lock().unwrap();
        s.out_permits = s.out_permits.saturating_add(n);
        s.pump();
    }
}

// ------------------------------------------------------------------ enumeration

pub fn list_devices() -> Result<impl Iterator<Item = DeviceInfo>, Error> {
    sim::BUS.with(|b| {
        let b = b.borrow();
        let b = b.as_ref().expect("no simulated bus installed");
        if b.list_fails {
            return Err(Error::other("list failed"));
        }
        let v: Vec<_> = b
            .devs
            .iter()
            .enumerate()
            .map(|(idx, d)| DeviceInfo {
                idx,
                desc: d.clone(),
                st: b.st.clone(),
                ifs: d
                    .ifs
                    .iter()
                    .map(|i| InterfaceInfo { number: i.number, class: i.class, subclass: i.subclass })
                    .collect(),
            })
            .collect();
        Ok(v.into_iter())
    })
}

#[derive(Clone)]
pub struct DeviceInfo {
    idx: usize,
    desc: sim::DevDesc,
    ifs: Vec<InterfaceInfo>,
    st: Arc<Mutex<sim::State>>,
}
impl std::fmt::Debug for DeviceInfo {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "DeviceInfo({})", self.idx)
    }
}
impl DeviceInfo {
    pub fn serial_number(&self) -> Option<&str> {
        self.desc.serial.as_deref()
    }
    pub fn product_string(&self) -> Option<&str> {
        self.desc.product.as_deref()
    }
    pub fn manufacturer_string(&self) -> Option<&str> {
        None
    }
    pub fn vendor_id(&self) -> u16 {
        self.desc.vid
    }
    pub fn product_id(&self) -> u16 {
        self.desc.pid
    }
    pub fn bus_number(&self) -> u8 {
        1
    }
    pub fn device_address(&self) -> u8 {
        self.idx as u8
    }
    pub fn class(&self) -> u8 {
        0
    }
    pub fn subclass(&self) -> u8 {
        0
    }
    pub fn protocol(&self) -> u8 {
        0
    }
    pub fn interfaces(&self) -> impl Iterator<Item = &InterfaceInfo> {
        self.ifs.iter()
    }
    pub fn open(&self) -> Result<Device, Error> {
        if self.desc.open_fails {
            return Err(Error::other("open failed"));
        }
        self.st.lock().unwrap().opened.push(self.idx);
        Ok(Device { idx: self.idx, desc: self.desc.clone(), st: self.st.clone() })
    }
}

#[derive(Clone, Debug)]
pub struct InterfaceInfo {
    number: u8,
    class: u8,
    subclass: u8,
}
impl InterfaceInfo {
    pub fn interface_number(&self) -> u8 {
        self.number
    }
    pub fn class(&self) -> u8 {
        self.class
    }
    pub fn subclass(&self) -> u8 {
        self.subclass
    }
    pub fn protocol(&self) -> u8 {
        0
    }
    pub fn interface_string(&self) -> Option<&str> {
        None
    }
}

#[derive(Clone)]
pub struct Device {
    idx: usize,
    desc: sim::DevDesc,
    st: Arc<Mutex<sim::State>>,
}
impl Device {
    pub fn claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        let Some(desc) = self.desc.ifs.iter().find(|i| i.number == interface).filter(|_| !self.desc.claim_fails) else {
            return Err(Error::other("claim failed"));
        };
        self.st.lock().unwrap().claimed.push((self.idx, interface));
        Ok(Interface { number: interface, desc: desc.clone(), st: self.st.clone() })
    }
    pub fn detach_and_claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        self.claim_interface(interface)
    }
}

#[derive(Clone)]
pub struct Interface {
    number: u8,
    desc: sim::IfDesc,
    st: Arc<Mutex<sim::State>>,
}
impl Interface {
    pub fn interface_number(&self) -> u8 {
        self.number
    }
    pub fn descriptors(&self) -> impl Iterator<Item = descriptors::InterfaceAltSetting<'_>> {
        self.desc.alts.iter().enumerate().map(|(n, eps)| descriptors::InterfaceAltSetting {
            number: self.number,
            alt: n as u8,
            class: self.desc.class,
            eps,
        })
    }
    pub fn bulk_in_queue(&self, endpoint: u8) -> transfer::Queue<transfer::RequestBuffer> {
        self.st.lock().unwrap().queues.push((self.number, endpoint));
        transfer::Queue::new(self.st.clone())
    }
    pub fn bulk_out_queue(&self, endpoint: u8) -> transfer::Queue<Vec<u8>> {
        self.st.lock().unwrap().queues.push((self.number, endpoint));
        transfer::Queue::new(self.st.clone())
    }
    pub fn clear_halt(&self, _endpoint: u8) -> Result<(), Error> {
        transfer::clear(&self.st)
    }
}

pub mod descriptors {
    use super::{sim::EpDesc, transfer::*};
    pub struct InterfaceAltSetting<'a> {
        pub(crate) number: u8,
        pub(crate) alt: u8,
        pub(crate) class: u8,
        pub(crate) eps: &'a [EpDesc],
    }
    impl<'a> InterfaceAltSetting<'a> {
        pub fn endpoints(&self) -> impl Iterator<Item = Endpoint<'a>> {
            self.eps.iter().map(Endpoint)
        }
        pub fn interface_number(&self) -> u8 {
            self.number
        }
        pub fn alternate_setting(&self) -> u8 {
            self.alt
        }
        pub fn num_endpoints(&self) -> u8 {
            self.eps.len() as u8
        }
        pub fn class(&self) -> u8 {
            self.class
        }
        pub fn subclass(&self) -> u8 {
            0
        }
        pub fn protocol(&self) -> u8 {
            0
        }
    }
    pub struct Endpoint<'a>(pub(crate) &'a EpDesc);
    impl Endpoint<'_> {
        pub fn direction(&self) -> Direction {
            self.0.dir()
        }
        pub fn transfer_type(&self) -> EndpointType {
            self.0.ty
        }
        pub fn max_packet_size(&self) -> usize {
            self.0.mps
        }
        pub fn max_packet_size_raw(&self) -> u16 {
            self.0.mps as u16
        }
        pub fn address(&self) -> u8 {
            self.0.address
        }
        pub fn interval(&self) -> u8 {
            0
        }
    }
}

// ------------------------------------------------------------------ transfers

pub mod transfer {
    use super::{sim::State, Error};
    use std::{
        future::{poll_fn, Future},
        marker::PhantomData,
        sync::{Arc, Mutex},
        task::{Context, Poll},
    };

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Direction {
        Out = 0,
        In = 1,
    }
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum EndpointType {
        Control = 0,
        Isochronous = 1,
        Bulk = 2,
        Interrupt = 3,
    }
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum TransferError {
        Cancelled,
        Stall,
        Disconnected,
        Fault,
        Unknown,
    }
    impl std::fmt::Display for TransferError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for TransferError {}
    impl From<TransferError> for std::io::Error {
        fn from(e: TransferError) -> Self {
            std::io::Error::other(e)
        }
    }

    #[derive(Debug, Clone)]
    #[must_use]
    pub struct Completion<T> {
        pub data: T,
        pub status: Result<(), TransferError>,
    }
    impl<T> Completion<T> {
        pub fn into_result(self) -> Result<T, TransferError> {
            self.status.map(|()| self.data)
        }
    }

    pub struct RequestBuffer {
        pub(crate) len: usize,
    }
    impl RequestBuffer {
        pub fn new(len: usize) -> Self {
            RequestBuffer { len }
        }
        pub fn reuse(_v: Vec<u8>, len: usize) -> Self {
            RequestBuffer { len }
        }
    }
    #[derive(Debug)]
    pub struct ResponseBuffer {
        buf: Vec<u8>,
        n: usize,
    }
    impl ResponseBuffer {
        pub fn actual_length(&self) -> usize {
            self.n
        }
        pub fn reuse(self) -> Vec<u8> {
            let mut v = self.buf;
            v.clear();
            v
        }
    }

    pub trait TransferRequest: Sized {
        type Response;
        #[doc(hidden)]
        fn submit(self, s: &mut State);
        #[doc(hidden)]
        fn pending(s: &State) -> usize;
        #[doc(hidden)]
        fn take(s: &mut State) -> Option<Completion<Self::Response>>;
        #[doc(hidden)]
        fn waker(s: &mut State) -> &mut Option<std::task::Waker>;
        #[doc(hidden)]
        fn cancel(s: &mut State);
        #[doc(hidden)]
        fn dropped(s: &mut State);
    }
    impl TransferRequest for RequestBuffer {
        type Response = Vec<u8>;
        fn submit(self, s: &mut State) {
            s.in_pending.push_back(self.len);
        }
        fn pending(s: &State) -> usize {
            s.in_pending.len() + s.in_done.len()
        }
        fn take(s: &mut State) -> Option<Completion<Vec<u8>>> {
            s.in_done.pop_front().map(|(data, status)| Completion { data, status })
        }
        fn waker(s: &mut State) -> &mut Option<std::task::Waker> {
            &mut s.in_waker
        }
        fn cancel(s: &mut State) {
            while s.in_pending.pop_front().is_some() {
                s.in_done.push_back((vec![], Err(TransferError::Cancelled)));
            }
        }
        fn dropped(s: &mut State) {
            s.in_dropped = true;
            s.in_pending.clear();
        }
    }
    impl TransferRequest for Vec<u8> {
        type Response = ResponseBuffer;
        fn submit(self, s: &mut State) {
            s.out_log.push(self.clone());
            s.out_pending.push_back(self);
        }
        fn pending(s: &State) -> usize {
            s.out_pending.len() + s.out_done.len()
        }
        fn take(s: &mut State) -> Option<Completion<ResponseBuffer>> {
            s.out_done.pop_front().map(|(d, status)| Completion {
                data: ResponseBuffer { n: if status.is_ok() { d.len() } else { 0 }, buf: d },
                status,
            })
        }
        fn waker(s: &mut State) -> &mut Option<std::task::Waker> {
            &mut s.out_waker
        }
        fn cancel(s: &mut State) {
            while let Some(d) = s.out_pending.pop_front() {
                s.out_done.push_back((d, Err(TransferError::Cancelled)));
            }
        }
        fn dropped(s: &mut State) {
            s.out_dropped = true;
            s.out_pending.clear();
        }
    }

    pub struct Queue<R: TransferRequest> {
        st: Arc<Mutex<State>>,
        _pd: PhantomData<fn() -> R>,
    }
    impl<R: TransferRequest> Queue<R> {
        pub(crate) fn new(st: Arc<Mutex<State>>) -> Self {
            Queue { st, _pd: PhantomData }
        }
        pub fn submit(&mut self, data: R) {
            let mut s = self.st.lock().unwrap();
            data.submit(&mut s);
            s.pump();
            if let Some(w) = s.bus_waker.take() {
                drop(s);
                w.wake();
            }
        }
        pub fn next_complete<'a>(&'a mut self) -> impl Future<Output = Completion<R::Response>> + Unpin + Send + Sync + 'a {
            poll_fn(|cx| self.poll_next(cx))
        }
        pub fn poll_next(&mut self, cx: &mut Context) -> Poll<Completion<R::Response>> {
            let mut s = self.st.lock().unwrap();
            if R::pending(&s) == 0 {
                s.misuse.push("next_complete without pending transfers".into());
                drop(s);
                panic!("queue should have pending transfers when calling next_complete");
            }
            match R::take(&mut s) {
                Some(c) => Poll::Ready(c),
                None => {
                    *R::waker(&mut s) = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
        pub fn pending(&self) -> usize {
            R::pending(&self.st.lock().unwrap())
        }
        pub fn cancel_all(&mut self) {
            let mut s = self.st.lock().unwrap();
            R::cancel(&mut s);
            s.pump();
        }
        pub fn clear_halt(&mut self) -> Result<(), Error> {
            clear(&self.st)
        }
    }
    impl<R: TransferRequest> Drop for Queue<R> {
        fn drop(&mut self) {
            if let Ok(mut s) = self.st.lock() {
                R::dropped(&mut s);
            }
        }
    }

    pub(crate) fn clear(st: &Arc<Mutex<State>>) -> Result<(), Error> {
        let mut s = st.lock().unwrap();
        if !s.in_pending.is_empty() {
            // "This should not be called when transfers are pending on the endpoint"
            return Err(Error::other("transfers pending"));
        }
        s.clear_halts += 1;
        if s.clear_halt_fails {
            return Err(Error::other("clear_halt failed"));
        }
        s.halted = false;
        s.pump();
        Ok(())
    }
}
