//! C26: a real host client and a real embassy-usb device over a simulated USB cable.

use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::OnceLock,
    time::Duration,
};

use nusb::transfer::EndpointType;
use postcard_rpc::{
    define_dispatch, endpoints,
    header::{VarHeader, VarKeyKind, VarSeq, VarSeqKind},
    host_client::{HostClient, HostErr},
    server::{Dispatch, Sender, Server, ServerError, SpawnContext, WireRxErrorKind, WireSpawn, WireTxErrorKind},
    standard_icd::{LoggingTopic, PingEndpoint, WireError, ERROR_PATH},
    topics, Endpoint, Topic, TopicDirection,
};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, frames, proptest, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::bus::{self, Desc, Dev, NoMutex};

// ------------------------------------------------------------------ interface

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Ask {
    tag: u32,
    want: u16,
    data: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Ans {
    tag: u32,
    sum: u32,
    data: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Note {
    tag: u32,
    data: Vec<u8>,
}

endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | BlockEp | Ask | Ans | "link/block" |
    | AsyncEp | Ask | Ans | "link/async" |
    | SpawnEp | Ask | Ans | "link/spawn" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | UpTp | Note | "link/up" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | DownTp | Note | "link/down" |
}

fn fill(n: usize, salt: u32) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(31).wrapping_add(salt.wrapping_mul(7)) as u8).collect()
}
fn answer(a: &Ask) -> Ans {
    Ans {
        tag: a.tag,
        sum: a.data.iter().fold(a.want as u32, |s, b| s.wrapping_mul(33).wrapping_add(*b as u32)),
        data: fill(a.want as usize, a.tag ^ 0x55),
    }
}

#[derive(Default)]
struct Seen {
    /// handled in the order of arrival: kind and tag
    order: Vec<(u8, u32)>,
    spawned: Vec<u32>,
    spawn_errs: Vec<u32>,
    ends: Vec<&'static str>,
    timeouts: usize,
}
#[derive(Clone)]
pub struct Ctx(Rc<RefCell<Seen>>);
pub struct SCtx(Rc<RefCell<Seen>>);
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx {
        SCtx(self.0.clone())
    }
}
#[derive(Clone)]
pub struct LSpawn;
impl WireSpawn for LSpawn {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
pub fn local_spawn(_: &LSpawn, f: impl Future<Output = ()> + 'static) -> Result<(), ()> {
    tokio::task::spawn_local(f);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Emit {
    Pub(u32, u16),
    LogStr(u32),
    LogFmt(u32),
}
type EmitFut = Pin<Box<dyn Future<Output = Result<(), WireTxErrorKind>>>>;

pub struct Guard(Vec<Box<dyn FnOnce()>>);
impl Drop for Guard {
    fn drop(&mut self) {
        for f in self.0.drain(..) {
            f()
        }
    }
}
fn lend<T: ?Sized + 'static>(b: Box<T>, g: &mut Guard) -> &'static mut T {
    let p = Box::into_raw(b);
    g.0.push(Box::new(move || drop(unsafe { Box::from_raw(p) })));
    unsafe { &mut *p }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cfg {
    vid: u16,
    pid: u16,
    serial: Option<String>,
    product: Option<String>,
    maker: Option<String>,
    /// further functions of the device: class, bulk (or interrupt) endpoints
    extra: Vec<(u8, bool)>,
    /// the plain constructor, which builds the device at once
    plain: bool,
}

macro_rules! server {
    ($m:ident, $imp:ident, $eu:ident, $set:expr) => {
        mod $m {
            use super::*;
            use postcard_rpc::server::impls::$imp::dispatch_impl::{WireStorage, WireTxImpl};
            pub type Tx = WireTxImpl<NoMutex, Dev>;
            pub type St = WireStorage<NoMutex, Dev, 256, 256, 64, 256>;

            fn h_block(c: &mut Ctx, _h: VarHeader, a: Ask) -> Ans {
                c.0.borrow_mut().order.push((0, a.tag));
                answer(&a)
            }
            async fn h_async(c: &mut Ctx, _h: VarHeader, a: Ask) -> Ans {
                c.0.borrow_mut().order.push((1, a.tag));
                tokio::task::yield_now().await;
                answer(&a)
            }
            async fn h_spawn(c: SCtx, h: VarHeader, a: Ask, tx: Sender<Tx>) {
                c.0.borrow_mut().spawned.push(a.tag);
                for _ in 0..a.tag % 3 {
                    tokio::task::yield_now().await;
                }
                if tx.reply::<SpawnEp>(h.seq_no, &answer(&a)).await.is_err() {
                    c.0.borrow_mut().spawn_errs.push(a.tag);
                }
            }
            fn t_up(c: &mut Ctx, _h: VarHeader, m: Note, _tx: &Sender<Tx>) {
                let ok = m.data == fill(m.data.len(), m.tag);
                c.0.borrow_mut().order.push((if ok { 3 } else { 99 }, m.tag));
            }
            define_dispatch! {
                app: App;
                spawn_fn: local_spawn;
                tx_impl: Tx;
                spawn_impl: LSpawn;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                    | BlockEp | blocking | h_block |
                    | AsyncEp | async | h_async |
                    | SpawnEp | spawn | h_spawn |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                    | UpTp | blocking | t_up |
                };
                topics_out: {
                    list: TOUT;
                };
            }

            fn config(c: &Cfg, g: &mut Guard) -> $eu::Config<'static> {
                let mut k = $eu::Config::new(c.vid, c.pid);
                let mut s = |s: &Option<String>| s.as_ref().map(|s| &*lend(s.clone().into_boxed_str(), g));
                k.serial_number = s(&c.serial);
                k.product = s(&c.product);
                k.manufacturer = s(&c.maker);
                // several functions
                k.device_class = 0xEF;
                k.device_sub_class = 0x02;
                k.device_protocol = 0x01;
                k.composite_with_iads = true;
                k
            }

            /// Power up the device: starts its tasks, returns how to make it send
            pub fn start(c: &Cfg, tx_len: usize, rx_len: usize, kk: Option<VarKeyKind>, timeout: Option<u16>, seen: Rc<RefCell<Seen>>, g: &mut Guard) -> (Rc<dyn Fn(Emit) -> EmitFut>, VarKeyKind) {
                let st: &'static St = lend(Box::new(St::new()), g);
                let buf = lend(vec![0xA5u8; tx_len].into_boxed_slice(), g);
                let conf = config(c, g);
                let (mut usb, tx, rx) = if c.plain {
                    st.init(Dev::new(), conf, buf)
                } else {
                    let (mut b, tx, rx) = st.init_without_build(Dev::new(), conf, buf);
                    for (class, bulk) in &c.extra {
                        let mut f = b.function(*class, 1, 1);
                        let mut i = f.interface();
                        let mut a = i.alt_setting(*class, 1, 1, None);
                        if *bulk {
                            let _ = a.endpoint_bulk_in(32);
                            let _ = a.endpoint_bulk_out(32);
                        } else {
                            let _ = a.endpoint_interrupt_in(16, 10);
                        }
                        drop(f);
                    }
                    (b.build(), tx, rx)
                };
                tokio::task::spawn_local(async move {
                    usb.run().await;
                });
                let app = App::new(Ctx(seen.clone()), LSpawn);
                let kk = kk.filter(|k| klen_of(*k) >= klen_of(app.min_key_len())).unwrap_or(app.min_key_len());
                let t2 = tx.clone();
                let mut server = Server::new(tx, rx, vec![0x5Au8; rx_len].into_boxed_slice(), app, kk);
                let sender = server.sender();
                tokio::task::spawn_local(async move {
                    if let Some(ms) = timeout {
                        $set(t2, ms).await;
                    }
                    // until the host has configured the device
                    while bus::with(|l| l.enabled.is_empty()) {
                        tokio::task::yield_now().await;
                    }
                    loop {
                        let e = server.run().await;
                        let mut s = seen.borrow_mut();
                        match e {
                            ServerError::TxFatal(WireTxErrorKind::Timeout) => s.timeouts += 1,
                            ServerError::TxFatal(WireTxErrorKind::ConnectionClosed) => s.ends.push("tx closed"),
                            ServerError::RxFatal(WireRxErrorKind::ConnectionClosed) => s.ends.push("rx closed"),
                            ServerError::TxFatal(_) => s.ends.push("tx other"),
                            ServerError::RxFatal(_) => s.ends.push("rx other"),
                        }
                        if !s.ends.is_empty() {
                            return;
                        }
                    }
                });
                (
                    Rc::new(move |e| {
                        let s = sender.clone();
                        Box::pin(async move {
                            match e {
                                Emit::Pub(tag, n) => s.publish::<DownTp>(VarSeq::Seq2(tag as u16), &Note { tag, data: fill(n as usize, tag) }).await,
                                Emit::LogStr(t) => s.log_str(&format!("log {t}")).await,
                                Emit::LogFmt(t) => s.log_fmt(format_args!("log {t}")).await,
                            }
                        })
                    }),
                    kk,
                )
            }

            /// The poststation flavour can be built once per process
            pub fn post(c: &Cfg, g: &mut Guard) {
                let st: &'static St = lend(Box::new(St::new()), g);
                let buf = lend(vec![0u8; 64].into_boxed_slice(), g);
                let conf = config(c, g);
                let (mut usb, _tx, _rx) = st.init_poststation(Dev::new(), conf, buf);
                tokio::task::spawn_local(async move {
                    usb.run().await;
                });
            }
        }
    };
}
server!(v3, embassy_usb_v0_3, embassy_usb_0_3, |_t, _ms| async {});
server!(v4, embassy_usb_v0_4, embassy_usb_0_4, |t: Tx, ms: u16| async move { t.set_timeout_ms_per_frame(ms as usize).await });

// ------------------------------------------------------------------ cases

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// kind, approximate frame lengths
    Req(u8, u16, u16),
    Up(u16),
    Down(u16),
    Log(bool),
    Ping(u32),
    Yield(u8),
    Settle,
    /// the host stops polling for some ms; nothing else happens meanwhile, or the next operations do
    Hold(u8),
    Unhold,
    Unplug,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    v4: bool,
    cfg: Cfg,
    tx_len: usize,
    rx_len: usize,
    klen: Option<usize>,
    slen: usize,
    timeout: Option<u16>,
    ops: Vec<Op>,
    rng: u64,
}

fn with_rt<T>(rng: u64, f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&rng.to_le_bytes()))
        .build()
        .unwrap_or_else(|e| vcommon::harness_error(format!("runtime: {e}")));
    let local = tokio::task::LocalSet::new();
    let r = local.block_on(&rt, f);
    drop(local);
    drop(rt);
    r
}
async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}
fn kk(n: usize) -> VarKeyKind {
    match n {
        1 => VarKeyKind::Key1,
        2 => VarKeyKind::Key2,
        4 => VarKeyKind::Key4,
        _ => VarKeyKind::Key8,
    }
}
fn klen_of(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
fn size(v: &impl Serialize) -> usize {
    postcard::to_stdvec(v).map(|v| v.len()).unwrap_or(0)
}

/// What the standard descriptors must say for the host to find and drive the device
fn check_desc(d: &Desc, c: &Cfg, sub: (u8, u8), extra: usize) -> Result<(u8, u8), String> {
    ensure_eq!((d.vid, d.pid), (c.vid, c.pid), "USB ids");
    ensure_eq!(d.strings, [c.maker.clone(), c.product.clone(), c.serial.clone()], "USB strings");
    ensure_eq!(d.ifs.len(), 1 + extra, "interfaces");
    let i = &d.ifs[0];
    ensure_eq!((i.number, i.alt, i.class, i.subclass, i.protocol), (0, 0, 0xff, sub.0, sub.1), "the first interface");
    let bulk: Vec<_> = i.eps.iter().map(|e| (e.address & 0x80 != 0, e.ty == EndpointType::Bulk, e.mps)).collect();
    ensure!(bulk.len() == 2 && bulk.contains(&(false, true, 64)) && bulk.contains(&(true, true, 64)), "endpoints {:?}", i.eps);
    let utf16 = |s: &str| -> Vec<u8> { s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect() };
    let has = |x: &[u8]| d.msos.windows(x.len()).any(|w| w == x);
    ensure!(has(b"WINUSB\0\0"), "no WINUSB compatible id: {:02x?}", d.msos);
    ensure!(has(&utf16("DeviceInterfaceGUIDs\0")) && has(&utf16("{AFB9A6FB-30BA-44BC-9232-806CFC875321}\0\0")), "no interface GUID: {:02x?}", d.msos);
    let a = |inn: bool| i.eps.iter().find(|e| (e.address & 0x80 != 0) == inn).map(|e| e.address).unwrap_or(0);
    Ok((a(false), a(true)))
}

#[derive(Debug, Clone, PartialEq)]
enum Got {
    Ans(Ans),
    Pong(u32),
    Closed,
    Bad(String),
}
fn conv<T>(r: Result<T, HostErr<WireError>>, f: impl FnOnce(T) -> Got) -> Got {
    match r {
        Ok(t) => f(t),
        Err(HostErr::Closed) => Got::Closed,
        Err(e) => Got::Bad(format!("{e:?}")),
    }
}

fn run(c: &Case) -> CaseResult {
    let mut g = Guard(vec![]);
    let r = with_rt(c.rng, async {
        bus::reset();
        body(c, &mut g).await
    });
    bus::finish();
    drop(g);
    r
}

async fn body(c: &Case, g: &mut Guard) -> CaseResult {
    let seen: Rc<RefCell<Seen>> = Default::default();
    let k = c.klen.map(kk);
    let (emit, k) = if c.v4 {
        v4::start(&c.cfg, c.tx_len, c.rx_len, k, c.timeout, seen.clone(), g)
    } else {
        v3::start(&c.cfg, c.tx_len, c.rx_len, k, c.timeout, seen.clone(), g)
    };
    let kn = klen_of(k);
    let d = bus::enumerate().await?;
    let extra = if c.cfg.plain { 0 } else { c.cfg.extra.len() };
    let (a_out, a_in) = check_desc(&d, &c.cfg, (0, 0), extra)?;
    let host = nusb::sim::install(vec![bus::dev_desc(&d)], false);
    bus::plug(host.clone());
    let serial = c.cfg.serial.clone();
    let sk = match c.slen {
        1 => VarSeqKind::Seq1,
        2 => VarSeqKind::Seq2,
        _ => VarSeqKind::Seq4,
    };
    let client = HostClient::<WireError>::try_new_raw_nusb(|x| x.serial_number() == serial.as_deref() && x.vendor_id() == c.cfg.vid, ERROR_PATH, 8, sk)
        .map_err(|e| format!("the host does not find the device: {e}"))?;
    {
        let mut q = host.lock().unwrap().queues.clone();
        q.sort();
        ensure_eq!(q, vec![(0, a_out), (0, a_in)], "endpoints the host uses");
    }
    let mut down = client.subscribe_exclusive::<DownTp>(1024).await.map_err(|_| "subscribing failed")?;
    let mut logs = client.subscribe_multi::<LoggingTopic>(1024).await.map_err(|_| "subscribing failed")?;

    // the device sends one message after the other
    let (etx, mut erx) = tokio::sync::mpsc::unbounded_channel::<Emit>();
    let results: Rc<RefCell<Vec<(Emit, Result<(), WireTxErrorKind>)>>> = Default::default();
    tokio::task::spawn_local({
        let (emit, results) = (emit.clone(), results.clone());
        async move {
            while let Some(e) = erx.recv().await {
                let r = emit(e.clone()).await;
                results.borrow_mut().push((e, r));
            }
        }
    });

    let mut reqs: Vec<(Op, u32, Ask, Rc<RefCell<Option<Got>>>)> = vec![];
    let mut tag = 0u32;
    let mut emitted = 0;
    let mut holds = 0;
    let mut held_until: Option<tokio::time::Instant> = None;
    let mut unplugged = false;
    for op in &c.ops {
        if let Some(t) = held_until {
            if tokio::time::Instant::now() >= t {
                bus::hold(false);
                held_until = None;
            }
        }
        match op {
            Op::Req(kind, up, dn) => {
                tag += 1;
                let head = 1 + kn + c.slen;
                let base = Ask { tag, want: 0, data: vec![] };
                let want = (*dn as usize).saturating_sub(head + size(&answer(&base)) + 1) as u16;
                let data = fill((*up as usize).saturating_sub(head + size(&base) + 2), tag);
                let ask = Ask { tag, want, data };
                let slot: Rc<RefCell<Option<Got>>> = Default::default();
                let (cl, s2, a2, kind2) = (client.clone(), slot.clone(), ask.clone(), *kind);
                tokio::task::spawn_local(async move {
                    let r = match kind2 % 3 {
                        0 => cl.send_resp::<BlockEp>(&a2).await,
                        1 => cl.send_resp::<AsyncEp>(&a2).await,
                        _ => cl.send_resp::<SpawnEp>(&a2).await,
                    };
                    *s2.borrow_mut() = Some(conv(r, Got::Ans));
                });
                reqs.push((op.clone(), tag, ask, slot));
            }
            Op::Ping(v) => {
                tag += 1;
                let slot: Rc<RefCell<Option<Got>>> = Default::default();
                let (cl, s2, v2) = (client.clone(), slot.clone(), *v);
                tokio::task::spawn_local(async move {
                    let r = cl.send_resp::<PingEndpoint>(&v2).await;
                    *s2.borrow_mut() = Some(conv(r, Got::Pong));
                });
                reqs.push((op.clone(), tag, Ask { tag, want: 0, data: vec![] }, slot));
            }
            Op::Up(n) => {
                tag += 1;
                let cl = client.clone();
                let m = Note { tag, data: fill((*n as usize).saturating_sub(1 + kn + 2 + 3), tag) };
                tokio::task::spawn_local(async move {
                    let _ = cl.publish::<UpTp>(VarSeq::Seq2(m.tag as u16), &m).await;
                });
            }
            Op::Down(n) => {
                emitted += 1;
                let over = 1 + kn + 2 + size(&Note { tag: emitted, data: vec![] });
                let mut n = (*n as usize).saturating_sub(over);
                if n > 127 {
                    n -= 1;
                }
                let _ = etx.send(Emit::Pub(emitted, n as u16));
            }
            Op::Log(f) => {
                emitted += 1;
                let _ = etx.send(if *f { Emit::LogFmt(emitted) } else { Emit::LogStr(emitted) });
            }
            Op::Yield(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
            }
            Op::Settle => ms(1).await,
            Op::Hold(n) => {
                if held_until.is_none() && !unplugged {
                    holds += 1;
                    bus::hold(true);
                    held_until = Some(tokio::time::Instant::now() + Duration::from_millis(*n as u64 % 40));
                }
            }
            Op::Unhold => {
                if let Some(t) = held_until.take() {
                    tokio::time::sleep_until(t).await;
                    bus::hold(false);
                }
            }
            Op::Unplug => {
                if !unplugged {
                    unplugged = true;
                    bus::unplug();
                }
            }
        }
    }
    if let Some(t) = held_until.take() {
        tokio::time::sleep_until(t).await;
    }
    bus::hold(false);
    ms(300).await;

    // ---- oracle
    if let Some(m) = bus::with(|l| l.misuse.first().cloned()).or(host.lock().unwrap().misuse.first().cloned()) {
        return Err(format!("misuse of the bus: {m}"));
    }
    bus::with(|l| {
        let ok: std::collections::BTreeSet<u8> = [a_out, a_in].into();
        ensure!(l.used.is_subset(&ok), "the device uses endpoints {:?}", l.used);
        Ok::<_, String>(())
    })?;
    let out: Vec<Vec<u8>> = host.lock().unwrap().out_log.iter().filter(|t| !t.is_empty()).cloned().collect();
    // what the host put on the wire, in order
    let mut order = vec![];
    let mut spawned = vec![];
    let mut oversize = 0;
    let mut unanswerable = std::collections::HashSet::new();
    let mut pings = 0;
    for f in &out {
        let (k, _, b) = frames::decode(f).ok_or("the host sent a malformed frame")?;
        let is = |key: &postcard_rpc::Key| frames::key_is(&k, &key.to_bytes());
        let fits = f.len() <= c.rx_len;
        oversize += !fits as usize;
        if is(&UpTp::TOPIC_KEY) {
            let m: Note = postcard::from_bytes(&b).map_err(|_| "topic message on the wire does not decode")?;
            if fits {
                order.push((3u8, m.tag));
            }
        } else if is(&PingEndpoint::REQ_KEY) {
            pings += 1;
            ensure!(fits, "harness: ping does not fit");
        } else {
            let a: Ask = postcard::from_bytes(&b).map_err(|_| "request on the wire does not decode")?;
            let kind = [BlockEp::REQ_KEY, AsyncEp::REQ_KEY, SpawnEp::REQ_KEY].iter().position(is).ok_or("unknown key on the wire")?;
            if !fits {
                unanswerable.insert(a.tag);
            } else if kind == 2 {
                spawned.push(a.tag);
            } else {
                order.push((kind as u8, a.tag));
            }
        }
    }
    let lossy = holds > 0;
    {
        let mut s = seen.borrow_mut();
        if unplugged {
            ensure!(order.starts_with(&s.order), "handled {:?}, sent {:?}", s.order, order);
            ensure!(s.spawned.iter().all(|t| spawned.contains(t)), "spawned handlers for {:?}, sent {:?}", s.spawned, spawned);
            ensure!(s.ends.len() == 1 && s.ends[0] != "tx other" && s.ends[0] != "rx other", "the server did not end properly when unplugged: {:?}", s.ends);
        } else {
            ensure_eq!(s.order, order, "messages handled against messages sent");
            s.spawned.sort();
            spawned.sort();
            ensure_eq!(s.spawned, spawned, "spawned handlers against requests sent");
            ensure!(s.ends.is_empty(), "the server ended: {:?}", s.ends);
        }
        if !lossy {
            ensure!(s.timeouts == 0 && (s.spawn_errs.is_empty() || unplugged || reqs.iter().any(|r| matches!(r.0, Op::Req(k, ..) if k % 3 == 2))), "sending timed out although the host polls");
        }
    }
    let mut lost = 0;
    for (op, tag, ask, slot) in &reqs {
        let got = slot.borrow().clone();
        if let Op::Ping(v) = op {
            match got {
                Some(Got::Pong(w)) => ensure!(*v == w, "ping {v} returned {w}"),
                Some(Got::Closed) if unplugged => {}
                None if lossy && !unplugged => lost += 1,
                x => return Err(format!("ping {v} gave {x:?}")),
            }
            continue;
        }
        let want = answer(ask);
        let too_big = 1 + kn + c.slen + size(&want) > c.tx_len;
        let spawned_kind = matches!(op, Op::Req(k, ..) if k % 3 == 2);
        match got {
            Some(Got::Ans(a)) => {
                ensure!(a == want, "request {tag} returned the answer {:?}", a.tag);
                ensure!(!too_big && !unanswerable.contains(tag), "request {tag} was answered although it cannot");
            }
            Some(Got::Closed) if unplugged => {}
            // an answer that does not fit is reported, unless the handler itself sends it
            Some(Got::Bad(e)) if too_big && !spawned_kind && !unanswerable.contains(tag) && e == "Wire(SerFailed)" => {}
            None if ((too_big && spawned_kind) || unanswerable.contains(tag)) && !unplugged => {}
            // sending the answer timed out, but the report got through
            Some(Got::Bad(e)) if lossy && !spawned_kind && e == "Wire(SerFailed)" => {}
            // the answer was cut short when sending it timed out, or not sent at all
            None if lossy && !unplugged => lost += 1,
            Some(Got::Bad(e)) if lossy && e.contains("Postcard") => lost += 1,
            x => return Err(format!("request {tag} ({op:?}) gave {x:?}, client closed: {}", client.is_closed())),
        }
    }
    {
        let s = seen.borrow();
        ensure!(lost <= s.timeouts + s.spawn_errs.len() || unplugged, "{lost} requests lost, but the server reported only {} failures", s.timeouts + s.spawn_errs.len());
    }
    // device to host
    let mut got_down = vec![];
    let mut got_logs = vec![];
    while let Ok(Some(m)) = tokio::time::timeout(Duration::from_millis(1), down.recv()).await {
        got_down.push(m);
    }
    while let Ok(Ok(m)) = tokio::time::timeout(Duration::from_millis(1), logs.recv()).await {
        got_logs.push(m);
    }
    let res = results.borrow().clone();
    let mut failed = 0;
    let (mut di, mut li) = (0, 0);
    let mut sent_ok = 0;
    for (e, r) in &res {
        let (here, fits) = match e {
            Emit::Pub(t, n) => {
                let m = Note { tag: *t, data: fill(*n as usize, *t) };
                (got_down.get(di) == Some(&m), 1 + kn + 2 + size(&m) <= c.tx_len)
            }
            Emit::LogStr(t) | Emit::LogFmt(t) => (got_logs.get(li) == Some(&format!("log {t}")), true),
        };
        ensure!(fits || r.is_err(), "{e:?} was sent although it does not fit the buffer");
        ensure!(fits || !here, "{e:?} arrived although it does not fit");
        match r {
            Ok(()) => {
                sent_ok += 1;
                ensure!(here || unplugged, "{e:?} was sent, but did not arrive in order (messages {:?}, logs {:?})", got_down.get(di).map(|m| m.tag), got_logs.get(li));
            }
            Err(k) => {
                failed += 1;
                let ok = match k {
                    WireTxErrorKind::Other => !fits,
                    WireTxErrorKind::Timeout => lossy,
                    WireTxErrorKind::ConnectionClosed => unplugged,
                    _ => false,
                };
                ensure!(ok, "{e:?} failed with {k:?}");
            }
        }
        if here {
            match e {
                Emit::Pub(..) => di += 1,
                _ => li += 1,
            }
        }
    }
    ensure!(di == got_down.len() && li == got_logs.len(), "unexpected message from the device: {:?} {:?}", got_down.get(di).map(|m| (m.tag, m.data.len())), got_logs.get(li));
    ensure!(res.len() as u32 == emitted, "the device is stuck sending: {} of {emitted} sent", res.len());
    ensure!(client.is_closed() == unplugged, "client closed: {}, unplugged: {unplugged}", client.is_closed());
    let (pi, po) = bus::with(|l| (l.packets_in, l.packets_out));
    let timeouts = seen.borrow().timeouts;
    Ok(Outcome::new(out.len() >= 3 && sent_ok + reqs.len() >= 3)
        .label(unplugged, "unplugged")
        .label(lossy, "host stops polling")
        .label(timeouts > 0 || (failed > 0 && lossy), "send timeouts")
        .label(oversize > 0, "oversized requests")
        .label(pi + po > 100, "more than 100 packets")
        .label(pings > 0, "ping")
        .label(kn < 8, "short keys")
        .label(c.v4, "embassy-usb 0.4"))
}

// ------------------------------------------------------------------ poststation flavour

static POST: [OnceLock<Result<Desc, String>>; 2] = [OnceLock::new(), OnceLock::new()];
fn post_cfg() -> Cfg {
    Cfg { vid: 0x16c0, pid: 0x27dd, serial: Some("0123".into()), product: Some("p".into()), maker: None, extra: vec![], plain: true }
}
fn post(v4: &bool) -> CaseResult {
    let d = POST[*v4 as usize].get_or_init(|| {
        let mut g = Guard(vec![]);
        let r = with_rt(1, async {
            bus::reset();
            if *v4 {
                v4::post(&post_cfg(), &mut g)
            } else {
                v3::post(&post_cfg(), &mut g)
            }
            bus::enumerate().await
        });
        bus::finish();
        drop(g);
        r
    });
    let d = d.clone()?;
    check_desc(&d, &post_cfg(), (0xCA, 0x7D), 0)?;
    ensure_eq!(d.ifs[0].name.as_deref(), Some("Poststation"), "interface name");
    Ok(Outcome::new(true))
}

pub fn c26(r: &mut Run) {
    r.assume("The cable is simulated: packets are delivered in order and unmodified; nusb is replaced by a stand-in with the same interface. embassy-usb itself (both versions) is the real one.");
    r.assume("Frames from the device are at most 1024 bytes, the transfer size the host uses; the embassy clock is the paused clock of the runtime.");
    r.assume("A timed out packet was not received by the host.");
    r.exhaust("poststation", "both versions", [false, true].into_iter(), post);
    let len = || prop_oneof![3 => 10u16..200, 4 => (1u16..16, 0u16..7).prop_map(|(k, d)| k * 64 + d - 3), 1 => 200u16..1020, 1 => Just(1024u16)];
    let text = || prop_oneof![1 => Just(None), 2 => "[a-zA-Z0-9]{1,12}".prop_map(Some)];
    let cfg = move || {
        (any::<u16>(), any::<u16>(), text(), text(), text(), proptest::collection::vec((prop_oneof![Just(3u8), Just(0xff), Just(0x0a)], any::<bool>()), 0..4), any::<bool>())
            .prop_map(|(vid, pid, serial, product, maker, extra, plain)| Cfg { vid, pid, serial, product, maker, extra, plain })
    };
    let case = move |faults: bool| {
        let op = prop_oneof![
            8 => (0u8..3, len(), len()).prop_map(|(k, a, b)| Op::Req(k, a, b)),
            3 => len().prop_map(Op::Up),
            4 => len().prop_map(Op::Down),
            2 => any::<bool>().prop_map(Op::Log),
            1 => any::<u32>().prop_map(Op::Ping),
            2 => (1u8..20).prop_map(Op::Yield),
            2 => Just(Op::Settle),
        ];
        let fop = prop_oneof![
            3 => (2u8..40).prop_map(Op::Hold),
            3 => Just(Op::Unhold),
            1 => Just(Op::Unplug),
        ];
        let op = if faults { prop_oneof![8 => op, 2 => fop].boxed() } else { op.boxed() };
        (
            any::<bool>(),
            cfg(),
            prop_oneof![4 => Just(1024usize), 2 => 100usize..1024, 2 => (2usize..16).prop_map(|k| k * 64)],
            prop_oneof![4 => Just(1024usize), 2 => 100usize..1100, 2 => (2usize..16).prop_map(|k| k * 64)],
            prop_oneof![2 => Just(None), 1 => frames::klen().prop_map(Some)],
            frames::slen(),
            prop_oneof![2 => Just(None), 1 => (1u16..5).prop_map(Some)],
            vcommon::hist(op, 1..30),
            any::<u64>(),
        )
            .prop_map(|(v4, cfg, tx_len, rx_len, klen, slen, timeout, mut ops, rng)| {
                if slen == 1 {
                    // at most 256 requests can be told apart at a time
                    ops.truncate(200);
                }
                Case { v4, cfg, tx_len, rx_len, klen, slen, timeout, ops, rng }
            })
    };
    r.check("traffic", "at least three frames from the host and three operations", 250_000, 4_000_000, move || case(false), run);
    r.check("faults", "at least three frames from the host and three operations", 250_000, 4_000_000, move || case(true), run);
}
