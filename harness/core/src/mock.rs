//! Mock wire for the host client, and the interface used by the client checks.

use std::{
    collections::VecDeque,
    fmt,
    future::{poll_fn, Future},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::{Poll, Waker},
};

use postcard_rpc::{
    host_client::{WireRx, WireSpawn, WireTx},
    Endpoint, Key, Topic,
};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};

use crate::{
    exec::Exec,
    hdr::{fold, ref_decode},
};

// ------------------------------------------------------------------ interface

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Req {
    pub tag: u32,
    pub blob: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Resp {
    pub tag: u32,
    pub ok: bool,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub enum MyErr {
    Plain(u32),
    Full { code: u32, text: String },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Msg {
    pub tag: u32,
    pub text: String,
}

pub const ERR_PATH: &str = "verif/err/1";

macro_rules! ep {
    ($n:ident, $p:literal) => {
        pub struct $n;
        impl Endpoint for $n {
            type Request = Req;
            type Response = Resp;
            const PATH: &'static str = $p;
            const REQ_KEY: Key = Key::for_path::<Req>($p);
            const RESP_KEY: Key = Key::for_path::<Resp>($p);
        }
    };
}
macro_rules! tp {
    ($n:ident, $p:literal) => {
        pub struct $n;
        impl Topic for $n {
            type Message = Msg;
            const PATH: &'static str = $p;
            const TOPIC_KEY: Key = Key::for_path::<Msg>($p);
        }
    };
}
ep!(Ep0, "verif/ep/zero");
ep!(Ep1, "verif/ep/one");
ep!(Ep2, "verif/ep/two");
ep!(Ep3, "verif/ep/three");
tp!(Tp0, "verif/tp/zero");
tp!(Tp1, "verif/tp/one");
tp!(Tp2, "verif/tp/two");
// for clients with many subscriptions
tp!(Tp3, "verif/tp/many/3");
tp!(Tp4, "verif/tp/many/4");
tp!(Tp5, "verif/tp/many/5");
tp!(Tp6, "verif/tp/many/6");
tp!(Tp7, "verif/tp/many/7");
tp!(Tp8, "verif/tp/many/8");
tp!(Tp9, "verif/tp/many/9");
tp!(Tp10, "verif/tp/many/10");
tp!(Tp11, "verif/tp/many/11");
tp!(Tp12, "verif/tp/many/12");
tp!(Tp13, "verif/tp/many/13");
tp!(Tp14, "verif/tp/many/14");
tp!(Tp15, "verif/tp/many/15");
tp!(Tp16, "verif/tp/many/16");
tp!(Tp17, "verif/tp/many/17");
tp!(Tp18, "verif/tp/many/18");
tp!(Tp19, "verif/tp/many/19");

pub const NEP: usize = 4;
pub const NTP: usize = 3;
pub const REQ_KEYS: [Key; NEP] = [Ep0::REQ_KEY, Ep1::REQ_KEY, Ep2::REQ_KEY, Ep3::REQ_KEY];
pub const RESP_KEYS: [Key; NEP] = [Ep0::RESP_KEY, Ep1::RESP_KEY, Ep2::RESP_KEY, Ep3::RESP_KEY];
/// All topics; the first ones are those of `TP_KEYS`
pub const MTP: usize = 20;
pub const TP_ALL: [Key; MTP] = [
    Tp0::TOPIC_KEY, Tp1::TOPIC_KEY, Tp2::TOPIC_KEY, Tp3::TOPIC_KEY, Tp4::TOPIC_KEY, Tp5::TOPIC_KEY, Tp6::TOPIC_KEY, Tp7::TOPIC_KEY, Tp8::TOPIC_KEY, Tp9::TOPIC_KEY, Tp10::TOPIC_KEY, Tp11::TOPIC_KEY, Tp12::TOPIC_KEY, Tp13::TOPIC_KEY, Tp14::TOPIC_KEY, Tp15::TOPIC_KEY, Tp16::TOPIC_KEY, Tp17::TOPIC_KEY, Tp18::TOPIC_KEY, Tp19::TOPIC_KEY,
];
pub const TP_KEYS: [Key; NTP] = [Tp0::TOPIC_KEY, Tp1::TOPIC_KEY, Tp2::TOPIC_KEY];
pub fn err_key() -> Key {
    Key::for_path::<MyErr>(ERR_PATH)
}

/// The harness interface must be collision free at every key length.
pub fn assert_interface() {
    for len in [1usize, 2, 4, 8] {
        let mut incoming: Vec<Vec<u8>> = RESP_KEYS
            .iter()
            .chain(TP_ALL.iter())
            .chain([err_key()].iter())
            .map(|k| fold(&k.to_bytes(), len))
            .collect();
        incoming.sort();
        let n = incoming.len();
        incoming.dedup();
        if incoming.len() != n {
            vcommon::harness_error(format!("harness interface collides at {len} byte(s)"));
        }
    }
}

// ------------------------------------------------------------------ wire

#[derive(Debug)]
pub struct MockErr;
impl fmt::Display for MockErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mock error")
    }
}
impl std::error::Error for MockErr {}

#[derive(Default)]
pub struct WireInner {
    pub inbox: VecDeque<(usize, Result<Vec<u8>, ()>)>,
    pub next_id: usize,
    /// (tick, frame id) in the order the client took them
    pub popped: Vec<(u64, usize)>,
    pub sent: Vec<(u64, Vec<u8>)>,
    pub permits: usize,
    pub tx_err: bool,
    /// only the next send fails
    pub tx_err_once: bool,
    /// frames sent before the first failed send
    pub sent_at_err: Option<usize>,
    /// a send call was waiting for a permit when it was dropped
    pub aborted_sends: usize,
    rx_waker: Option<Waker>,
    tx_waker: Option<Waker>,
    pub rx_dropped: bool,
    pub tx_dropped: bool,
}

#[derive(Clone)]
pub struct Wire {
    pub st: Arc<Mutex<WireInner>>,
    pub clock: Arc<AtomicU64>,
}

impl Wire {
    pub fn new(permits: usize) -> Self {
        Wire {
            st: Arc::new(Mutex::new(WireInner { permits, ..Default::default() })),
            clock: Arc::new(AtomicU64::new(1)),
        }
    }
    pub fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
    /// Queue a frame for the client; returns its id
    pub fn deliver(&self, f: Vec<u8>) -> usize {
        self.push(Ok(f))
    }
    pub fn deliver_err(&self) -> usize {
        self.push(Err(()))
    }
    fn push(&self, f: Result<Vec<u8>, ()>) -> usize {
        let mut st = self.st.lock().unwrap();
        let id = st.next_id;
        st.next_id += 1;
        st.inbox.push_back((id, f));
        if let Some(w) = st.rx_waker.take() {
            w.wake();
        }
        id
    }
    pub fn permit(&self, n: usize) {
        let mut st = self.st.lock().unwrap();
        st.permits = st.permits.saturating_add(n);
        if let Some(w) = st.tx_waker.take() {
            w.wake();
        }
    }
    pub fn fail_tx(&self) {
        let mut st = self.st.lock().unwrap();
        st.tx_err = true;
        if let Some(w) = st.tx_waker.take() {
            w.wake();
        }
    }
    pub fn fail_tx_once(&self) {
        let mut st = self.st.lock().unwrap();
        st.tx_err_once = true;
        if let Some(w) = st.tx_waker.take() {
            w.wake();
        }
    }
    pub fn sent(&self) -> Vec<(u64, Vec<u8>)> {
        self.st.lock().unwrap().sent.clone()
    }
    pub fn sent_len(&self) -> usize {
        self.st.lock().unwrap().sent.len()
    }
    pub fn popped(&self) -> Vec<(u64, usize)> {
        self.st.lock().unwrap().popped.clone()
    }
    pub fn parts(&self) -> (MockTx, MockRx) {
        (MockTx(self.clone()), MockRx(self.clone()))
    }
}

pub struct MockTx(Wire);
pub struct MockRx(Wire);

impl Drop for MockTx {
    fn drop(&mut self) {
        if let Ok(mut s) = self.0.st.lock() {
            s.tx_dropped = true;
        }
    }
}
impl Drop for MockRx {
    fn drop(&mut self) {
        if let Ok(mut s) = self.0.st.lock() {
            s.rx_dropped = true;
        }
    }
}

impl WireTx for MockTx {
    type Error = MockErr;
    fn send(&mut self, data: Vec<u8>) -> impl Future<Output = Result<(), MockErr>> + Send {
        let w = self.0.clone();
        let mut data = Some(data);
        poll_fn(move |cx| {
            let mut st = w.st.lock().unwrap();
            if st.tx_err || st.tx_err_once {
                st.tx_err_once = false;
                st.sent_at_err = st.sent_at_err.or(Some(st.sent.len()));
                return Poll::Ready(Err(MockErr));
            }
            if st.permits == 0 {
                st.tx_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            if st.permits != usize::MAX {
                st.permits -= 1;
            }
            let t = w.tick();
            st.sent.push((t, data.take().unwrap_or_else(|| vcommon::harness_error("send polled after completion"))));
            Poll::Ready(Ok(()))
        })
    }
}

impl WireRx for MockRx {
    type Error = MockErr;
    fn receive(&mut self) -> impl Future<Output = Result<Vec<u8>, MockErr>> + Send {
        let w = self.0.clone();
        poll_fn(move |cx| {
            let mut st = w.st.lock().unwrap();
            match st.inbox.pop_front() {
                None => {
                    st.rx_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
                Some((id, r)) => {
                    let t = w.tick();
                    st.popped.push((t, id));
                    Poll::Ready(r.map_err(|_| MockErr))
                }
            }
        })
    }
}

pub struct MockSpawn {
    pub exec: Exec,
    pub ids: std::rc::Rc<std::cell::RefCell<Vec<crate::exec::TaskId>>>,
}
impl MockSpawn {
    pub fn new(exec: &Exec) -> Self {
        MockSpawn { exec: exec.clone(), ids: Default::default() }
    }
}
impl WireSpawn for MockSpawn {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        let id = self.exec.spawn(fut);
        self.ids.borrow_mut().push(id);
    }
}

// ------------------------------------------------------------------ frames

pub fn frame(key: &Key, klen: usize, slen: usize, seq: u32, body: &[u8]) -> Vec<u8> {
    let mut v = crate::hdr::ref_encode(&fold(&key.to_bytes(), klen), slen, seq);
    v.extend_from_slice(body);
    v
}

/// key bytes, (width, seq), body
pub type Dec = (Vec<u8>, (usize, u32), Vec<u8>);
pub fn dec(f: &[u8]) -> Option<Dec> {
    ref_decode(f)
}

pub fn key_is(k: &[u8], key: &Key) -> bool {
    fold(&key.to_bytes(), k.len()) == k
}

/// Could this (longer) key pass for `key` where only a shortened form of it is compared? True of
/// keys that equal it, and of unrelated keys which shorten to the same value.
pub fn key_may(k: &[u8], key: &Key) -> bool {
    let mut v = k.to_vec();
    while v.len() > 1 {
        if key_is(&v, key) {
            return true;
        }
        v = v.chunks(2).map(|c| c[0] ^ c[1]).collect();
    }
    key_is(&v, key)
}
