//! C10 dispatcher, C11 server loop.

use std::{
    cell::RefCell,
    collections::VecDeque,
    fmt::Arguments,
    future::{poll_fn, Future},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use postcard_rpc::{
    define_dispatch, endpoints,
    header::{VarHeader, VarKeyKind},
    server::{
        AsWireRxErrorKind, AsWireTxErrorKind, Dispatch, Sender, Server, ServerError, SpawnContext, WireRx, WireRxErrorKind,
        WireSpawn, WireTx, WireTxErrorKind,
    },
    standard_icd::{GetAllSchemaDataTopic, GetAllSchemasEndpoint, PingEndpoint, WireError, ERROR_KEY},
    topics, Endpoint, Key, Topic, TopicDirection,
};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    hdr::{fold, kkind, klen, ref_decode, ref_encode, slen, spicy_byte, spicy_u32},
    mock::{dec, frame, key_is},
};

// ------------------------------------------------------------------ mock server transport

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum TxK {
    Closed,
    Other,
    Timeout,
}
#[derive(Debug, Clone, PartialEq)]
pub struct TxErr {
    pub kind: TxK,
    pub id: usize,
}
impl AsWireTxErrorKind for TxErr {
    fn as_kind(&self) -> WireTxErrorKind {
        match self.kind {
            TxK::Closed => WireTxErrorKind::ConnectionClosed,
            TxK::Other => WireTxErrorKind::Other,
            TxK::Timeout => WireTxErrorKind::Timeout,
        }
    }
}

#[derive(Default)]
pub struct TxState {
    /// every attempt: (frame, result)
    pub attempts: Vec<(Vec<u8>, Option<TxErr>)>,
    pub faults: VecDeque<Option<TxK>>,
    /// sends stay pending until it is granted
    pub gate: Option<usize>,
}

#[derive(Clone, Default)]
pub struct STx(pub Arc<Mutex<TxState>>);

impl STx {
    fn put(&self, f: Vec<u8>) -> Result<(), TxErr> {
        let mut s = self.0.lock().unwrap();
        let id = s.attempts.len();
        let e = s.faults.pop_front().flatten().map(|kind| TxErr { kind, id });
        s.attempts.push((f, e.clone()));
        match e {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    pub fn frames(&self) -> Vec<Vec<u8>> {
        self.0.lock().unwrap().attempts.iter().filter(|a| a.1.is_none()).map(|a| a.0.clone()).collect()
    }
}

/// Pending exactly once
pub async fn yield_once() {
    let mut done = false;
    poll_fn(move |cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

impl WireTx for STx {
    type Error = TxErr;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), TxErr> {
        let mut f = hdr.write_to_vec();
        match postcard::to_stdvec(msg) {
            Ok(b) => f.extend_from_slice(&b),
            Err(e) => vcommon::harness_error(format!("{e}")),
        }
        yield_once().await;
        self.put(f)
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), TxErr> {
        self.put(buf.to_vec())
    }
    async fn send_log_str(&self, _k: VarKeyKind, _s: &str) -> Result<(), TxErr> {
        vcommon::harness_error("log not expected")
    }
    async fn send_log_fmt<'a>(&self, _k: VarKeyKind, _a: Arguments<'a>) -> Result<(), TxErr> {
        vcommon::harness_error("log not expected")
    }
}

type Fut = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Clone, Default)]
pub struct SSpawn {
    pub queue: Arc<Mutex<SpawnQ>>,
}
#[derive(Default)]
pub struct SpawnQ {
    pub futs: Vec<Fut>,
    /// false: spawning fails
    pub allow: VecDeque<bool>,
    pub calls: usize,
}
// Only ever used on the thread that created it.
unsafe impl Send for SpawnQ {}

impl WireSpawn for SSpawn {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
pub fn spawn_fn(sp: &SSpawn, f: impl Future<Output = ()> + 'static) -> Result<(), ()> {
    let mut q = sp.queue.lock().unwrap();
    q.calls += 1;
    if q.allow.pop_front().unwrap_or(true) {
        q.futs.push(Box::pin(f));
        Ok(())
    } else {
        Err(())
    }
}
/// Poll all spawned tasks (in the given direction) until done
pub fn run_spawned(sp: &SSpawn, reverse: bool) -> Result<(), String> {
    for _ in 0..1000 {
        let mut futs = std::mem::take(&mut sp.queue.lock().unwrap().futs);
        if futs.is_empty() {
            return Ok(());
        }
        if reverse {
            futs.reverse();
        }
        let mut left: Vec<Fut> = vec![];
        for mut f in futs {
            if f.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_pending() {
                left.push(f);
            }
        }
        if reverse {
            left.reverse();
        }
        sp.queue.lock().unwrap().futs.extend(left);
    }
    Err("spawned handlers never finish".into())
}

/// Drive a future that may be pending a few times
pub fn drive<F: Future>(f: F, max: usize) -> Result<F::Output, String> {
    let mut f = std::pin::pin!(f);
    for _ in 0..max {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            return Ok(v);
        }
    }
    Err("does not complete".into())
}

// ------------------------------------------------------------------ the interface and its handlers

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct AReq {
    pub x: u32,
    pub name: String,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct AResp {
    pub x: u32,
    pub call: u32,
    pub kind: u8,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub enum BReq {
    Unit,
    Num(u64),
    Pair { a: i16, b: Option<bool> },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Note {
    pub id: u16,
    pub data: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Call {
    pub who: &'static str,
    /// header as encoded
    pub hdr: Vec<u8>,
    /// message as encoded
    pub msg: Vec<u8>,
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<Call>>>);
impl Log {
    pub fn add(&self, who: &'static str, hdr: &VarHeader, msg: &impl Serialize) -> u32 {
        let mut l = self.0.lock().unwrap();
        l.push(Call { who, hdr: hdr.write_to_vec(), msg: postcard::to_stdvec(msg).unwrap() });
        l.len() as u32
    }
}

pub struct Ctx {
    pub log: Log,
    pub calls: u32,
}
pub struct SCtx {
    pub log: Log,
}
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx {
        SCtx { log: self.log.clone() }
    }
}

pub mod api {
    use super::*;
    endpoints! {
        list = EPS;
        | EndpointTy | RequestTy | ResponseTy | Path          |
        | ---------- | --------- | ---------- | ----          |
        | BlockEp    | AReq      | AResp      | "d/block"     |
        | AsyncEp    | AReq      | AResp      | "d/async"     |
        | SpawnEp    | AReq      | AResp      | "d/spawn"     |
        | EnumEp     | BReq      | BReq       | "d/enum"      |
        | UnitEp     | ()        | u8         | "d/unit"      |
        | BorrowEp   | u16       | ()         | "d/nothing"   |
    }
    topics! {
        list = TIN;
        direction = TopicDirection::ToServer;
        | TopicTy  | MessageTy | Path      |
        | -------  | --------- | ----      |
        | BlockTp  | Note      | "t/block" |
        | AsyncTp  | Note      | "t/async" |
        | SpawnTp  | BReq      | "t/spawn" |
    }
    topics! {
        list = TOUT;
        direction = TopicDirection::ToClient;
        | TopicTy  | MessageTy | Path      |
        | -------  | --------- | ----      |
        | OutTp    | Note      | "o/note"  |
    }
}
use api::*;

fn h_block(c: &mut Ctx, hdr: VarHeader, r: AReq) -> AResp {
    c.calls += 1;
    c.log.add("block", &hdr, &r);
    AResp { x: r.x.wrapping_mul(3), call: c.calls, kind: 1 }
}
async fn h_async(c: &mut Ctx, hdr: VarHeader, r: AReq) -> AResp {
    c.calls += 1;
    let n = c.calls;
    c.log.add("async", &hdr, &r);
    yield_once().await;
    AResp { x: r.x.wrapping_add(r.name.len() as u32), call: n, kind: 2 }
}
async fn h_spawn(c: SCtx, hdr: VarHeader, r: AReq, tx: Sender<STx>) {
    c.log.add("spawn", &hdr, &r);
    yield_once().await;
    let _ = tx.reply::<SpawnEp>(hdr.seq_no, &AResp { x: !r.x, call: 0, kind: 3 }).await;
}
fn h_enum(c: &mut Ctx, hdr: VarHeader, r: BReq) -> BReq {
    c.calls += 1;
    c.log.add("enum", &hdr, &r);
    r
}
async fn h_unit(c: &mut Ctx, hdr: VarHeader, _r: ()) -> u8 {
    c.calls += 1;
    c.log.add("unit", &hdr, &());
    77
}
fn h_nothing(c: &mut Ctx, hdr: VarHeader, r: u16) {
    c.calls += 1;
    c.log.add("nothing", &hdr, &r);
}
fn t_block(c: &mut Ctx, hdr: VarHeader, m: Note, _tx: &Sender<STx>) {
    c.log.add("tblock", &hdr, &m);
}
async fn t_async(c: &mut Ctx, hdr: VarHeader, m: Note, _tx: &Sender<STx>) {
    c.log.add("tasync", &hdr, &m);
    yield_once().await;
}
async fn t_spawn(c: SCtx, hdr: VarHeader, m: BReq, _tx: Sender<STx>) {
    yield_once().await;
    c.log.add("tspawn", &hdr, &m);
}

define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: STx;
    spawn_impl: SSpawn;
    context: Ctx;

    endpoints: {
        list: EPS;
        | EndpointTy | kind     | handler   |
        | ---------- | ----     | -------   |
        | BlockEp    | blocking | h_block   |
        | AsyncEp    | async    | h_async   |
        | SpawnEp    | spawn    | h_spawn   |
        | EnumEp     | blocking | h_enum    |
        | UnitEp     | async    | h_unit    |
        | BorrowEp   | blocking | h_nothing |
    };
    topics_in: {
        list: TIN;
        | TopicTy    | kind     | handler   |
        | -------    | ----     | -------   |
        | BlockTp    | blocking | t_block   |
        | AsyncTp    | async    | t_async   |
        | SpawnTp    | spawn    | t_spawn   |
    };
    topics_out: {
        list: TOUT;
    };
}

/// Every incoming key, in an order of our own
pub fn in_keys() -> Vec<(&'static str, Key)> {
    vec![
        ("block", BlockEp::REQ_KEY),
        ("async", AsyncEp::REQ_KEY),
        ("spawn", SpawnEp::REQ_KEY),
        ("enum", EnumEp::REQ_KEY),
        ("unit", UnitEp::REQ_KEY),
        ("nothing", BorrowEp::REQ_KEY),
        ("tblock", BlockTp::TOPIC_KEY),
        ("tasync", AsyncTp::TOPIC_KEY),
        ("tspawn", SpawnTp::TOPIC_KEY),
        ("ping", PingEndpoint::REQ_KEY),
        ("schemas", GetAllSchemasEndpoint::REQ_KEY),
    ]
}
fn out_keys() -> Vec<Key> {
    vec![
        BlockEp::RESP_KEY, AsyncEp::RESP_KEY, SpawnEp::RESP_KEY, EnumEp::RESP_KEY, UnitEp::RESP_KEY, BorrowEp::RESP_KEY,
        PingEndpoint::RESP_KEY, GetAllSchemasEndpoint::RESP_KEY, ERROR_KEY, GetAllSchemaDataTopic::TOPIC_KEY,
    ]
}
fn assert_api() {
    for l in [1usize, 2, 4, 8] {
        for ks in [in_keys().into_iter().map(|k| k.1).collect::<Vec<_>>(), out_keys()] {
            let mut v: Vec<_> = ks.iter().map(|k| fold(&k.to_bytes(), l)).collect();
            v.sort();
            let n = v.len();
            v.dedup();
            if n != v.len() {
                vcommon::harness_error(format!("dispatch interface collides at {l} byte(s)"));
            }
        }
    }
}

// ------------------------------------------------------------------ reference dispatcher

#[derive(Default)]
pub struct RefDispatch {
    calls: u32,
}

/// What a received frame must lead to.
pub struct Want {
    pub call: Option<Call>,
    /// frames in order (schema streaming: only the last one is spelled out)
    pub reply: Option<Vec<u8>>,
    pub schemas: bool,
    pub spawned: bool,
}

impl RefDispatch {
    /// `spawn_ok`: consulted when a spawn is attempted
    pub fn frame(&mut self, n: usize, f: &[u8], spawn_ok: &mut dyn FnMut() -> bool) -> Option<Want> {
        let (k, (sw, seq), body) = ref_decode(f)?;
        let hdr = ref_encode(&k, sw, seq);
        let mut w = Want { call: None, reply: None, schemas: false, spawned: false };
        let out = |key: Key, b: Vec<u8>| Some(frame(&key, n, sw, seq, &b));
        let err = |e: WireError| Some(frame(&ERROR_KEY, n, sw, seq, &postcard::to_stdvec(&e).unwrap()));
        if k.len() < n {
            w.reply = err(WireError::KeyTooSmall);
            return Some(w);
        }
        // fold the received key further to the server's length
        let short = refold(&k, n);
        let who = in_keys().into_iter().find(|(_, key)| fold(&key.to_bytes(), n) == short).map(|x| x.0);
        let Some(who) = who else {
            w.reply = err(WireError::UnknownKey);
            return Some(w);
        };
        macro_rules! de {
            ($t:ty) => {
                postcard::from_bytes::<$t>(&body)
            };
        }
        macro_rules! call {
            ($m:expr) => {
                w.call = Some(Call { who, hdr: hdr.clone(), msg: postcard::to_stdvec($m).unwrap() })
            };
        }
        let v = |x: &dyn Fn() -> Vec<u8>| x();
        match who {
            "ping" => match de!(u32) {
                Ok(x) => w.reply = out(PingEndpoint::RESP_KEY, v(&|| postcard::to_stdvec(&x).unwrap())),
                Err(_) => w.reply = err(WireError::DeserFailed),
            },
            "schemas" => w.schemas = true,
            "block" => match de!(AReq) {
                Ok(r) => {
                    self.calls += 1;
                    call!(&r);
                    let a = AResp { x: r.x.wrapping_mul(3), call: self.calls, kind: 1 };
                    w.reply = out(BlockEp::RESP_KEY, postcard::to_stdvec(&a).unwrap());
                }
                Err(_) => w.reply = err(WireError::DeserFailed),
            },
            "async" => match de!(AReq) {
                Ok(r) => {
                    self.calls += 1;
                    call!(&r);
                    let a = AResp { x: r.x.wrapping_add(r.name.len() as u32), call: self.calls, kind: 2 };
                    w.reply = out(AsyncEp::RESP_KEY, postcard::to_stdvec(&a).unwrap());
                }
                Err(_) => w.reply = err(WireError::DeserFailed),
            },
            "spawn" => match de!(AReq) {
                Ok(r) if spawn_ok() => {
                    call!(&r);
                    w.spawned = true;
                    w.reply = out(SpawnEp::RESP_KEY, postcard::to_stdvec(&AResp { x: !r.x, call: 0, kind: 3 }).unwrap());
                }
                Ok(_) => w.reply = err(WireError::FailedToSpawn),
                Err(_) => w.reply = err(WireError::DeserFailed),
            },
            "enum" => match de!(BReq) {
                Ok(r) => {
                    self.calls += 1;
                    call!(&r);
                    w.reply = out(EnumEp::RESP_KEY, postcard::to_stdvec(&r).unwrap());
                }
                Err(_) => w.reply = err(WireError::DeserFailed),
            },
            "unit" => {
                self.calls += 1;
                call!(&());
                w.reply = out(UnitEp::RESP_KEY, vec![77]);
            }
            "nothing" => match de!(u16) {
                Ok(r) => {
                    self.calls += 1;
                    call!(&r);
                    w.reply = out(BorrowEp::RESP_KEY, vec![]);
                }
                Err(_) => w.reply = err(WireError::DeserFailed),
            },
            "tblock" | "tasync" => {
                if let Ok(m) = de!(Note) {
                    call!(&m);
                }
            }
            "tspawn" => {
                if let Ok(m) = de!(BReq) {
                    if spawn_ok() {
                        call!(&m);
                        w.spawned = true;
                    }
                }
            }
            _ => unreachable!(),
        }
        Some(w)
    }
}

/// Fold a key of any length further down
pub fn refold(k: &[u8], n: usize) -> Vec<u8> {
    crate::hdr::fold_more(k.to_vec(), n)
}

// ------------------------------------------------------------------ generated frames

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum KeySel {
    /// one of the interface's keys
    Known(u8),
    /// a different full key that shortens to an interface key at this many bytes
    Alias { k: u8, at: usize, x: u64 },
    /// a known key with one bit flipped
    Flip { k: u8, bit: u8 },
    /// an outgoing key
    Out(u8),
    Random(u64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BodySel {
    Valid { x: u32, s: u8, v: u8 },
    /// valid with trailing bytes
    Extra { x: u32, n: u8 },
    Cut { x: u32, s: u8, keep: u8 },
    Raw(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FrameSel {
    pub key: KeySel,
    pub klen: usize,
    pub seqw: usize,
    pub seq: u32,
    pub body: BodySel,
}

pub fn frame_sel() -> impl Strategy<Value = FrameSel> {
    let key = prop_oneof![
        12 => (0u8..11).prop_map(KeySel::Known),
        2 => (0u8..11, prop_oneof![Just(1usize), Just(2), Just(4)], any::<u64>()).prop_map(|(k, at, x)| KeySel::Alias { k, at, x }),
        1 => (0u8..11, 0u8..64).prop_map(|(k, bit)| KeySel::Flip { k, bit }),
        1 => (0u8..10).prop_map(KeySel::Out),
        1 => any::<u64>().prop_map(KeySel::Random),
    ];
    let body = prop_oneof![
        6 => (spicy_u32(), prop_oneof![200 => 0u8..40, 10 => 40u8..250, 1 => 250u8..], any::<u8>()).prop_map(|(x, s, v)| BodySel::Valid { x, s, v }),
        1 => (spicy_u32(), 1u8..5).prop_map(|(x, n)| BodySel::Extra { x, n }),
        2 => (spicy_u32(), 0u8..10, 0u8..6).prop_map(|(x, s, keep)| BodySel::Cut { x, s, keep }),
        1 => prop::collection::vec(spicy_byte(), 0..12).prop_map(BodySel::Raw),
    ];
    (key, klen(), slen(), spicy_u32(), body).prop_map(|(key, klen, seqw, seq, body)| FrameSel { key, klen, seqw, seq, body })
}

/// Lengths of texts and lists, a few of them past 64 KiB
fn amount(s: u8) -> usize {
    match s {
        250.. => 65_500 + 20 * (s as usize - 250),
        s => s as usize,
    }
}

pub fn build(f: &FrameSel) -> Vec<u8> {
    let keys = in_keys();
    let mut who = "";
    let k8: [u8; 8] = match &f.key {
        KeySel::Known(i) => {
            let (w, k) = &keys[*i as usize % keys.len()];
            who = w;
            k.to_bytes()
        }
        KeySel::Alias { k, at, x } => {
            let (w, k) = &keys[*k as usize % keys.len()];
            who = w;
            let mut b = k.to_bytes();
            // XOR the same random bytes into pairs that cancel when folded to `at`
            for (i, d) in x.to_le_bytes().iter().enumerate().take(4) {
                let (p, q) = match at {
                    4 => (2 * i, 2 * i + 1),
                    2 => ([0, 1, 4, 5][i], [2, 3, 6, 7][i]),
                    _ => (i, i + 4),
                };
                b[p] ^= d;
                b[q] ^= d;
            }
            b
        }
        KeySel::Flip { k, bit } => {
            let (w, k) = &keys[*k as usize % keys.len()];
            who = w;
            let mut b = k.to_bytes();
            b[(*bit / 8) as usize % 8] ^= 1 << (bit % 8);
            b
        }
        KeySel::Out(i) => {
            let o = out_keys();
            o[*i as usize % o.len()].to_bytes()
        }
        KeySel::Random(x) => x.to_le_bytes(),
    };
    let valid = |x: u32, s: u8, v: u8| -> Vec<u8> {
        let b = match v % 3 {
            0 => BReq::Unit,
            1 => BReq::Num(x as u64 * 77),
            _ => BReq::Pair { a: x as i16, b: [None, Some(true), Some(false)][s as usize % 3] },
        };
        match who {
            "block" | "async" | "spawn" | "" => postcard::to_stdvec(&AReq { x, name: "ä".repeat(amount(s)) }).unwrap(),
            "enum" | "tspawn" => postcard::to_stdvec(&b).unwrap(),
            "unit" | "schemas" => vec![],
            "nothing" => postcard::to_stdvec(&(x as u16)).unwrap(),
            "tblock" | "tasync" => postcard::to_stdvec(&Note { id: x as u16, data: vec![v; amount(s)] }).unwrap(),
            _ => postcard::to_stdvec(&x).unwrap(),
        }
    };
    let body = match &f.body {
        BodySel::Valid { x, s, v } => valid(*x, *s, *v),
        BodySel::Extra { x, n } => {
            let mut b = valid(*x, 2, 1);
            b.extend(std::iter::repeat_n(0xA5, *n as usize));
            b
        }
        BodySel::Cut { x, s, keep } => {
            let mut b = valid(*x, *s, 2);
            b.truncate(*keep as usize);
            b
        }
        BodySel::Raw(v) => v.clone(),
    };
    let mut out = ref_encode(&fold(&k8, f.klen), f.seqw, f.seq);
    out.extend_from_slice(&body);
    out
}

// ------------------------------------------------------------------ C10

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case10 {
    n: usize,
    frames: Vec<FrameSel>,
    /// outcomes of successive spawn attempts
    allow: Vec<bool>,
    reverse: bool,
    /// run spawned handlers only after this many frames
    lag: u8,
}

fn case10() -> impl Strategy<Value = Case10> {
    (klen(), vcommon::hist(frame_sel(), 1..12), prop::collection::vec(prop::bool::weighted(0.6), 0..6), any::<bool>(), 0u8..4)
        .prop_map(|(n, frames, allow, reverse, lag)| Case10 { n, frames, allow, reverse, lag })
}

fn run10(c: &Case10) -> CaseResult {
    match c.n {
        1 => go10(c, |x, s| impls::App::<1>::new(x, s)),
        2 => go10(c, |x, s| impls::App::<2>::new(x, s)),
        4 => go10(c, |x, s| impls::App::<4>::new(x, s)),
        _ => go10(c, |x, s| impls::App::<8>::new(x, s)),
    }
}

fn go10<D: Dispatch<Tx = STx>>(c: &Case10, mk: impl FnOnce(Ctx, SSpawn) -> D) -> CaseResult {
    let log = Log::default();
    let sp = SSpawn::default();
    sp.queue.lock().unwrap().allow = c.allow.iter().copied().collect();
    let mut app = mk(Ctx { log: log.clone(), calls: 0 }, sp.clone());
    ensure!(app.min_key_len() == kkind(c.n), "dispatcher for {} byte keys asks for {:?}", c.n, app.min_key_len());
    let tx = STx::default();
    let sender = Sender::new(tx.clone(), app.min_key_len());
    let mut model = RefDispatch::default();
    let mut allow: VecDeque<bool> = c.allow.iter().copied().collect();
    let mut pend: (Vec<Call>, Vec<Vec<u8>>) = (vec![], vec![]);
    let (mut errs, mut calls, mut spawns, mut multi) = (0, 0, 0, 0);
    let mut seen_calls = 0;
    let mut seen_att = 0;
    for (i, fs) in c.frames.iter().enumerate() {
        let f = build(fs);
        let Some((hdr, body)) = VarHeader::take_from_slice(&f) else {
            vcommon::harness_error("generated frame does not decode")
        };
        let r = drive(app.handle(&sender, &hdr, body), 2000)?;
        ensure!(r.is_ok(), "frame {i}: handle failed with {:?}", r.err());
        let want = model.frame(c.n, &f, &mut || allow.pop_front().unwrap_or(true)).unwrap();
        let att: Vec<Vec<u8>> = tx.0.lock().unwrap().attempts[seen_att..].iter().map(|a| a.0.clone()).collect();
        seen_att += att.len();
        let new_calls: Vec<Call> = log.0.lock().unwrap()[seen_calls..].to_vec();
        seen_calls += new_calls.len();
        if want.schemas {
            multi += 1;
            ensure!(new_calls.is_empty(), "frame {i}: schema request invoked {new_calls:?}");
            let Some((last, data)) = att.split_last() else { return Err(format!("frame {i}: schema request not answered")) };
            let (_, (sw, seq), _) = ref_decode(&f).unwrap();
            let (k, s, _) = dec(last).ok_or("undecodable reply")?;
            ensure!(k == fold(&GetAllSchemasEndpoint::RESP_KEY.to_bytes(), c.n) && s == (sw, seq),
                "frame {i}: schema request not answered last with its own response: {last:02x?}");
            for d in data {
                let (k, _, _) = dec(d).ok_or("undecodable schema message")?;
                ensure!(k == fold(&GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(), c.n), "frame {i}: unexpected frame {d:02x?} while streaming schemas");
            }
            continue;
        }
        let spawned = want.spawned;
        if want.call.is_none() && want.reply.is_some() {
            errs += 1;
        }
        calls += want.call.is_some() as u32;
        if spawned {
            spawns += 1;
            pend.0.extend(want.call);
            pend.1.extend(want.reply);
            ensure!(new_calls.is_empty() && att.is_empty(),
                "frame {i}: spawned handler ran inside handle(): {new_calls:?} {att:02x?}");
        } else {
            ensure_eq!(new_calls, want.call.into_iter().collect::<Vec<_>>(), "frame {i} {f:02x?}: handlers invoked");
            ensure_eq!(att, want.reply.into_iter().collect::<Vec<_>>(), "frame {i} {f:02x?}: frames sent");
        }
        if c.lag == 0 || i % (c.lag as usize + 1) == c.lag as usize || i + 1 == c.frames.len() {
            run_spawned(&sp, c.reverse)?;
            let mut got: Vec<Call> = log.0.lock().unwrap()[seen_calls..].to_vec();
            seen_calls += got.len();
            let mut att: Vec<Vec<u8>> = tx.0.lock().unwrap().attempts[seen_att..].iter().map(|a| a.0.clone()).collect();
            seen_att += att.len();
            let (mut a, mut b) = std::mem::take(&mut pend);
            let k = |x: &Call| (x.who, x.hdr.clone(), x.msg.clone());
            got.sort_by_key(k);
            a.sort_by_key(k);
            att.sort();
            b.sort();
            ensure_eq!(got, a, "spawned handlers invoked");
            ensure_eq!(att, b, "frames sent by spawned handlers");
        }
    }
    run_spawned(&sp, false)?;
    let calls_made = sp.queue.lock().unwrap().calls;
    let _ = calls_made;
    Ok(Outcome::new(calls >= 1 && c.frames.len() >= 2)
        .label(errs > 0, "wire error")
        .label(spawns > 0, "spawned handler")
        .label(multi > 0, "schema request")
        .label(calls > 3, "more than three handler calls")
        .label(c.frames.iter().any(|f| f.klen < c.n), "key too short")
        .label(c.frames.iter().any(|f| matches!(f.key, KeySel::Alias { .. })), "aliasing long key"))
}

pub fn c10(r: &mut Run) {
    assert_api();
    r.assume("endpoint handlers of kind spawn reply themselves through the Sender they are given (documented contract)");
    r.check(
        "dispatch",
        "at least one handler invocation in a sequence of at least two frames",
        800_000, 8_000_000, case10, run10,
    );
}

// ------------------------------------------------------------------ C11

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum RxK {
    Closed,
    TooLarge,
    Other,
}
#[derive(Debug, Clone, PartialEq)]
struct RxErr {
    kind: RxK,
    id: usize,
}
impl AsWireRxErrorKind for RxErr {
    fn as_kind(&self) -> WireRxErrorKind {
        match self.kind {
            RxK::Closed => WireRxErrorKind::ConnectionClosed,
            RxK::TooLarge => WireRxErrorKind::ReceivedMessageTooLarge,
            RxK::Other => WireRxErrorKind::Other,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Ev {
    Frame(FrameSel),
    Bytes(Vec<u8>),
    /// larger than the receive buffer
    Oversize(u8),
    Err(RxK),
}

struct SRx {
    script: std::rc::Rc<RefCell<VecDeque<(usize, Result<Vec<u8>, RxK>)>>>,
    pend: bool,
}
impl WireRx for SRx {
    type Error = RxErr;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], RxErr> {
        if self.pend {
            yield_once().await;
        }
        let Some((id, r)) = self.script.borrow_mut().pop_front() else {
            return Err(RxErr { kind: RxK::Closed, id: usize::MAX });
        };
        match r {
            Ok(f) if f.len() > buf.len() => Err(RxErr { kind: RxK::TooLarge, id }),
            Ok(f) => {
                buf[..f.len()].copy_from_slice(&f);
                Ok(&mut buf[..f.len()])
            }
            Err(kind) => Err(RxErr { kind, id }),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case11 {
    n: usize,
    evs: Vec<Ev>,
    faults: Vec<Option<TxK>>,
    buf: usize,
    pend: bool,
}

fn case11() -> impl Strategy<Value = Case11> {
    let ev = prop_oneof![
        8 => frame_sel().prop_map(|mut f| {
            // keep schema streaming out of the fault scripts (covered by C12)
            if let KeySel::Known(10) = f.key { f.key = KeySel::Known(9) }
            Ev::Frame(f)
        }),
        2 => prop::collection::vec(spicy_byte(), 0..10).prop_map(Ev::Bytes),
        1 => (1u8..20).prop_map(Ev::Oversize),
        2 => prop_oneof![1 => Just(RxK::Closed), 1 => Just(RxK::TooLarge), 1 => Just(RxK::Other)].prop_map(Ev::Err),
    ];
    let fault = prop_oneof![
        5 => Just(None),
        1 => Just(Some(TxK::Closed)),
        1 => Just(Some(TxK::Timeout)),
        2 => Just(Some(TxK::Other)),
    ];
    (klen(), vcommon::hist(ev, 1..25), prop_oneof![1 => Just(vec![]), 3 => vcommon::hist(fault, 0..20)], 20usize..100, any::<bool>())
        .prop_map(|(n, evs, faults, buf, pend)| Case11 { n, evs, faults, buf, pend })
}

fn run11(c: &Case11) -> CaseResult {
    match c.n {
        1 => go11(c, |x, s| impls::App::<1>::new(x, s)),
        2 => go11(c, |x, s| impls::App::<2>::new(x, s)),
        4 => go11(c, |x, s| impls::App::<4>::new(x, s)),
        _ => go11(c, |x, s| impls::App::<8>::new(x, s)),
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Ret {
    Rx(RxErr),
    Tx(TxErr),
}

fn go11<D: Dispatch<Tx = STx>>(c: &Case11, mk: impl FnOnce(Ctx, SSpawn) -> D) -> CaseResult {
    let evs: Vec<(usize, Result<Vec<u8>, RxK>)> = c
        .evs
        .iter()
        .map(|e| match e {
            Ev::Frame(f) => Ok(build(f)),
            Ev::Bytes(b) => Ok(b.clone()),
            Ev::Oversize(n) => {
                let mut f = frame(&BlockEp::REQ_KEY, 8, 2, 1, &[]);
                f.resize(c.buf + *n as usize, 1);
                Ok(f)
            }
            Ev::Err(k) => Err(*k),
        })
        .enumerate()
        .collect();
    // schema requests by aliasing or random bytes: not part of this check
    let is_schema = |f: &[u8]| {
        ref_decode(f).is_some_and(|(k, _, _)| k.len() >= c.n && refold(&k, c.n) == fold(&GetAllSchemasEndpoint::REQ_KEY.to_bytes(), c.n))
    };
    let evs: Vec<_> = evs.into_iter().filter(|e| !e.1.as_ref().is_ok_and(|f| is_schema(f))).collect();

    // ---- model
    let mut model = RefDispatch::default();
    let mut want_calls: Vec<Call> = vec![];
    let mut want_att: Vec<(Vec<u8>, Option<TxErr>)> = vec![];
    let mut want_ret: Vec<Ret> = vec![];
    let mut faults: VecDeque<Option<TxK>> = c.faults.iter().copied().collect();
    let (mut nonfatal, mut valid_after) = (0, 0);
    let mut spawn_calls = 0;
    let mut spawn_reply: Vec<Vec<u8>> = vec![];
    for (id, e) in &evs {
        match e {
            Err(k) => {
                if *k == RxK::Closed {
                    want_ret.push(Ret::Rx(RxErr { kind: *k, id: *id }));
                } else {
                    nonfatal += 1;
                }
            }
            Ok(f) if f.len() > c.buf => nonfatal += 1,
            Ok(f) => {
                let Some(w) = model.frame(c.n, f, &mut || true) else {
                    nonfatal += 1;
                    continue;
                };
                if nonfatal > 0 && w.call.is_some() {
                    valid_after += 1;
                }
                if w.spawned {
                    // runs outside the loop; its sends are not part of the fault script
                    spawn_calls += 1;
                    spawn_reply.extend(w.reply);
                    continue;
                }
                let is_call = w.call.is_some();
                want_calls.extend(w.call);
                let Some(rep) = w.reply else { continue };
                let ping = key_is(&dec(&rep).unwrap().0, &PingEndpoint::RESP_KEY);
                let mut put = |fr: Vec<u8>, faults: &mut VecDeque<Option<TxK>>| {
                    let e = faults.pop_front().flatten().map(|kind| TxErr { kind, id: want_att.len() });
                    want_att.push((fr, e.clone()));
                    e
                };
                let (_, (sw, seq), _) = dec(&rep).unwrap();
                let mut fin = put(rep, &mut faults);
                if fin.is_some() && is_call && !ping {
                    // the reply could not be sent: the client is told so
                    nonfatal += 1;
                    fin = put(frame(&ERROR_KEY, c.n, sw, seq, &postcard::to_stdvec(&WireError::SerFailed).unwrap()), &mut faults);
                }
                match fin {
                    None => {}
                    Some(e) if e.kind == TxK::Other => nonfatal += 1,
                    Some(e) => want_ret.push(Ret::Tx(e)),
                }
            }
        }
    }
    want_ret.push(Ret::Rx(RxErr { kind: RxK::Closed, id: usize::MAX }));

    // ---- real server
    let log = Log::default();
    let sp = SSpawn::default();
    let app = mk(Ctx { log: log.clone(), calls: 0 }, sp.clone());
    let tx = STx::default();
    tx.0.lock().unwrap().faults = c.faults.iter().copied().collect();
    let script = std::rc::Rc::new(RefCell::new(evs.iter().cloned().collect::<VecDeque<_>>()));
    let kk = app.min_key_len();
    let mut server = Server::new(tx.clone(), SRx { script: script.clone(), pend: c.pend }, vec![0xEEu8; c.buf].into_boxed_slice(), app, kk);
    let mut rets = vec![];
    for _ in 0..want_ret.len() + 2 {
        let r = match drive(server.run(), 5000)? {
            ServerError::TxFatal(e) => Ret::Tx(e),
            ServerError::RxFatal(e) => Ret::Rx(e),
        };
        let fin = r == Ret::Rx(RxErr { kind: RxK::Closed, id: usize::MAX });
        rets.push(r);
        if fin {
            break;
        }
    }
    ensure_eq!(*log.0.lock().unwrap(), want_calls, "handler invocations");
    ensure_eq!(tx.0.lock().unwrap().attempts, want_att, "send attempts");
    ensure_eq!(rets, want_ret, "what run() returned");
    ensure!(script.borrow().is_empty(), "server stopped reading");
    // spawned handlers
    tx.0.lock().unwrap().faults.clear();
    let before = tx.0.lock().unwrap().attempts.len();
    run_spawned(&sp, false)?;
    ensure_eq!(log.0.lock().unwrap().len() - want_calls.len(), spawn_calls, "spawned handler invocations");
    let mut got: Vec<_> = tx.0.lock().unwrap().attempts[before..].iter().map(|a| a.0.clone()).collect();
    got.sort();
    spawn_reply.sort();
    ensure_eq!(got, spawn_reply, "replies of spawned handlers");
    Ok(Outcome::new(nonfatal > 0 && valid_after > 0)
        .label(rets.len() > 1, "fatal error and restart")
        .label(rets.iter().any(|r| matches!(r, Ret::Tx(_))), "fatal send error")
        .label(want_att.iter().any(|a| a.1.is_some()), "send fault")
        .label(nonfatal > 2, "more than two non-fatal faults"))
}

pub fn c11(r: &mut Run) {
    assert_api();
    r.check(
        "server-loop",
        "at least one non-fatal fault followed by a frame that reaches a handler",
        600_000, 8_000_000, case11, run11,
    );
}
