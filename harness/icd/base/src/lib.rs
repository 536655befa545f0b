//! Oracle linked into every generated interface program (C14).
//!
//! The generated module states, independently of the macros, what it declared: for each entry
//! the marker, the types and the path. Everything else is computed here from the types' schemas.

use std::{
    cell::RefCell,
    collections::{BTreeSet, HashSet},
    fmt::Debug,
    future::Future,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

use postcard_rpc::{
    header::{VarHeader, VarKey, VarKeyKind, VarSeq},
    server::{Dispatch, Sender, SpawnContext, WireSpawn, WireTx, WireTxErrorKind},
    standard_icd, DeviceMap, Endpoint, EndpointMap, Key, Topic, TopicDirection, TopicMap,
};
use postcard_schema::{
    schema::{DataModelType, DataModelVariant, NamedType},
    Schema,
};
use serde::Serialize;

pub use postcard_rpc;
pub use postcard_schema;

// ------------------------------------------------------------------ reference pieces

pub fn fold(b: &[u8; 8], len: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    while v.len() > len {
        v = v.chunks(2).map(|c| c[0] ^ c[1]).collect();
    }
    v
}
type Decoded = (Vec<u8>, (usize, u32), Vec<u8>);
fn decode(b: &[u8]) -> Option<Decoded> {
    let d = *b.first()?;
    let klen = 1usize << (d >> 6);
    let slen = 1usize << ((d >> 4) & 3);
    if b.len() < 1 + klen + slen {
        return None;
    }
    let mut s = [0u8; 4];
    s[..slen].copy_from_slice(&b[1 + klen..1 + klen + slen]);
    Some((b[1..1 + klen].to_vec(), (slen, u32::from_le_bytes(s)), b[1 + klen + slen..].to_vec()))
}
fn is_prim(t: &NamedType) -> bool {
    use DataModelType::*;
    matches!(
        t.ty,
        Bool | I8 | U8 | I16 | I32 | I64 | I128 | U16 | U32 | U64 | U128 | Usize | Isize | F32 | F64 | Char | String | ByteArray
            | Unit | Schema
    )
}
fn children(t: &NamedType) -> Vec<&'static NamedType> {
    use DataModelType::*;
    match t.ty {
        Option(n) | NewtypeStruct(n) | Seq(n) => vec![n],
        Tuple(ns) | TupleStruct(ns) => ns.to_vec(),
        Map { key, val } => vec![key, val],
        Struct(vs) => vs.iter().map(|v| v.ty).collect(),
        Enum(vs) => vs
            .iter()
            .flat_map(|v| match v.ty {
                DataModelVariant::UnitVariant => vec![],
                DataModelVariant::NewtypeVariant(n) => vec![*n],
                DataModelVariant::TupleVariant(ns) => ns.to_vec(),
                DataModelVariant::StructVariant(ns) => ns.iter().map(|v| v.ty).collect(),
            })
            .collect(),
        _ => vec![],
    }
}
fn reachable(t: &'static NamedType, out: &mut HashSet<NamedType>) {
    if !is_prim(t) {
        out.insert(*t);
    }
    for c in children(t) {
        reachable(c, out);
    }
}
fn key<T: Schema + ?Sized>(path: &str) -> [u8; 8] {
    let k = Key::for_path::<T>(path).to_bytes();
    #[cfg(feature = "std")]
    {
        // the run time hash of the owned schema is how a host recomputes keys
        let o = postcard_schema::schema::owned::OwnedNamedType::from(T::SCHEMA);
        let k2 = Key::for_owned_schema_path(path, &o).to_bytes();
        assert_eq!(k, k2, "harness: static and owned key of {path:?}");
    }
    k
}

// ------------------------------------------------------------------ declared truth

#[derive(Clone)]
pub struct EpT {
    pub path: &'static str,
    pub req: [u8; 8],
    pub resp: [u8; 8],
    pub schemas: [&'static NamedType; 2],
}
#[derive(Clone)]
pub struct TpT {
    pub path: &'static str,
    pub key: [u8; 8],
    pub schema: &'static NamedType,
}

pub struct Rep {
    pub module: String,
    pub problems: Vec<String>,
    /// lines compared between the two build configurations
    pub facts: Vec<String>,
    pub labels: BTreeSet<String>,
}
macro_rules! want {
    ($s:expr, $c:expr, $($a:tt)*) => { if !($c) { let m = format!($($a)*); $s.problem(m); } };
}

pub struct List<T> {
    pub entries: Vec<T>,
    pub omit: bool,
}

impl Rep {
    fn problem(&mut self, m: String) {
        if self.problems.len() < 5 {
            self.problems.push(m);
        }
    }
    pub fn label(&mut self, l: &str) {
        self.labels.insert(l.to_string());
    }

    /// What was declared for an endpoint; also compares the marker's constants
    pub fn ep<E, Rq, Rs>(&mut self, name: &str, path: &'static str) -> EpT
    where
        E: Endpoint<Request = Rq, Response = Rs>,
        Rq: Schema,
        Rs: Schema,
    {
        let (rq, rs) = (key::<Rq>(path), key::<Rs>(path));
        want!(self, E::PATH == path, "marker {name}: PATH {:?}, declared {path:?}", E::PATH);
        want!(self, E::REQ_KEY.to_bytes() == rq, "marker {name}: REQ_KEY {:?}, expected {rq:?}", E::REQ_KEY);
        want!(self, E::RESP_KEY.to_bytes() == rs, "marker {name}: RESP_KEY {:?}, expected {rs:?}", E::RESP_KEY);
        want!(self, E::REQ_KEY4.to_bytes()[..] == fold(&rq, 4), "marker {name}: REQ_KEY4");
        want!(self, E::REQ_KEY2.to_bytes()[..] == fold(&rq, 2), "marker {name}: REQ_KEY2");
        want!(self, [E::REQ_KEY1.to_bytes()][..] == fold(&rq, 1), "marker {name}: REQ_KEY1");
        want!(self, E::RESP_KEY4.to_bytes()[..] == fold(&rs, 4), "marker {name}: RESP_KEY4");
        want!(self, E::RESP_KEY2.to_bytes()[..] == fold(&rs, 2), "marker {name}: RESP_KEY2");
        want!(self, [E::RESP_KEY1.to_bytes()][..] == fold(&rs, 1), "marker {name}: RESP_KEY1");
        self.facts.push(format!("ep {name} {:?} {:?} {:?}", E::PATH, E::REQ_KEY.to_bytes(), E::RESP_KEY.to_bytes()));
        EpT { path, req: rq, resp: rs, schemas: [Rq::SCHEMA, Rs::SCHEMA] }
    }
    pub fn tp<T, M>(&mut self, name: &str, path: &'static str) -> TpT
    where
        T: Topic<Message = M>,
        M: Schema + ?Sized,
    {
        let k = key::<M>(path);
        want!(self, T::PATH == path, "marker {name}: PATH {:?}, declared {path:?}", T::PATH);
        want!(self, T::TOPIC_KEY.to_bytes() == k, "marker {name}: TOPIC_KEY {:?}, expected {k:?}", T::TOPIC_KEY);
        want!(self, T::TOPIC_KEY4.to_bytes()[..] == fold(&k, 4), "marker {name}: TOPIC_KEY4");
        want!(self, T::TOPIC_KEY2.to_bytes()[..] == fold(&k, 2), "marker {name}: TOPIC_KEY2");
        want!(self, [T::TOPIC_KEY1.to_bytes()][..] == fold(&k, 1), "marker {name}: TOPIC_KEY1");
        self.facts.push(format!("tp {name} {:?} {:?}", T::PATH, T::TOPIC_KEY.to_bytes()));
        TpT { path, key: k, schema: M::SCHEMA }
    }

    fn std_eps() -> Vec<EpT> {
        vec![
            EpT {
                path: "postcard-rpc/ping",
                req: key::<u32>("postcard-rpc/ping"),
                resp: key::<u32>("postcard-rpc/ping"),
                schemas: [u32::SCHEMA, u32::SCHEMA],
            },
            EpT {
                path: "postcard-rpc/schemas/get",
                req: key::<()>("postcard-rpc/schemas/get"),
                resp: key::<standard_icd::SchemaTotals>("postcard-rpc/schemas/get"),
                schemas: [<()>::SCHEMA, standard_icd::SchemaTotals::SCHEMA],
            },
        ]
    }
    fn std_tps(dir: TopicDirection) -> Vec<TpT> {
        #[cfg(feature = "std")]
        type Sd = standard_icd::OwnedSchemaData;
        #[cfg(not(feature = "std"))]
        type Sd = standard_icd::SchemaData<'static>;
        match dir {
            TopicDirection::ToServer => vec![],
            TopicDirection::ToClient => vec![
                TpT { path: "postcard-rpc/schema/data", key: key::<Sd>("postcard-rpc/schema/data"), schema: Sd::SCHEMA },
                TpT { path: "postcard-rpc/logging", key: key::<str>("postcard-rpc/logging"), schema: str::SCHEMA },
            ],
        }
    }
    pub fn full_eps(l: &List<EpT>) -> Vec<EpT> {
        let mut v = if l.omit { vec![] } else { Self::std_eps() };
        v.extend(l.entries.iter().cloned());
        v
    }
    pub fn full_tps(l: &List<TpT>, dir: TopicDirection) -> Vec<TpT> {
        let mut v = if l.omit { vec![] } else { Self::std_tps(dir) };
        v.extend(l.entries.iter().cloned());
        v
    }

    fn types(&mut self, what: &str, got: &[&'static NamedType], want_from: &[&'static NamedType]) {
        let mut want = HashSet::new();
        for s in want_from {
            reachable(s, &mut want);
        }
        let mut seen: HashSet<NamedType> = HashSet::new();
        for g in got {
            if !seen.insert(**g) {
                self.problem(format!("{what}: type {} listed twice", g.name));
            }
        }
        for w in want.difference(&seen).take(1) {
            self.problem(format!("{what}: type {} missing", w.name));
        }
        for w in seen.difference(&want).take(1) {
            self.problem(format!("{what}: type {} listed but not used", w.name));
        }
    }
    fn ep_entries(&mut self, what: &str, got: &[(&str, Key, Key)], want: &[EpT]) {
        let g: Vec<_> = got.iter().map(|(p, a, b)| (*p, a.to_bytes(), b.to_bytes())).collect();
        let w: Vec<_> = want.iter().map(|e| (e.path, e.req, e.resp)).collect();
        want!(self, g == w, "{what}: entries {g:?}, declared {w:?}");
        self.facts.push(format!("{what} {g:?}"));
    }
    fn tp_entries(&mut self, what: &str, got: &[(&str, Key)], want: &[TpT]) {
        let g: Vec<_> = got.iter().map(|(p, a)| (*p, a.to_bytes())).collect();
        let w: Vec<_> = want.iter().map(|e| (e.path, e.key)).collect();
        want!(self, g == w, "{what}: entries {g:?}, declared {w:?}");
        self.facts.push(format!("{what} {g:?}"));
    }
    pub fn eps(&mut self, what: &str, got: &EndpointMap, l: &List<EpT>) {
        let full = Self::full_eps(l);
        self.ep_entries(what, got.endpoints, &full);
        let s: Vec<_> = full.iter().flat_map(|e| e.schemas).collect();
        self.types(what, got.types, &s);
    }
    pub fn tps(&mut self, what: &str, got: &TopicMap, l: &List<TpT>, dir: TopicDirection) {
        let full = Self::full_tps(l, dir);
        want!(self, got.direction == dir, "{what}: direction {:?}", got.direction);
        self.tp_entries(what, got.topics, &full);
        let s: Vec<_> = full.iter().map(|e| e.schema).collect();
        self.types(what, got.types, &s);
    }

    /// Returns the reference minimum
    pub fn device<D: Dispatch>(&mut self, d: &D, map: &DeviceMap, e: &List<EpT>, i: &List<TpT>, o: &List<TpT>) -> usize {
        let (fe, fi, fo) =
            (Self::full_eps(e), Self::full_tps(i, TopicDirection::ToServer), Self::full_tps(o, TopicDirection::ToClient));
        self.ep_entries("device_map.endpoints", map.endpoints, &fe);
        self.tp_entries("device_map.topics_in", map.topics_in, &fi);
        self.tp_entries("device_map.topics_out", map.topics_out, &fo);
        let mut s: Vec<_> = fe.iter().flat_map(|e| e.schemas).collect();
        s.extend(fi.iter().chain(fo.iter()).map(|t| t.schema));
        self.types("device_map.types", map.types, &s);

        let ins: Vec<[u8; 8]> = fe.iter().map(|e| e.req).chain(fi.iter().map(|t| t.key)).collect();
        let mut outs: Vec<[u8; 8]> = fe.iter().map(|e| e.resp).chain(fo.iter().map(|t| t.key)).collect();
        outs.push(key::<standard_icd::WireError>("error"));
        let distinct = |ks: &[[u8; 8]], n: usize| {
            let s: HashSet<_> = ks.iter().map(|k| fold(k, n)).collect();
            s.len() == ks.len()
        };
        let min = [1usize, 2, 4, 8].into_iter().find(|n| distinct(&ins, *n) && distinct(&outs, *n)).expect("harness: colliding interface");
        let got = d.min_key_len();
        let gl = len_of(got);
        want!(self, gl == min, "minimum key length {got:?}, but {min} bytes is the smallest that keeps keys distinct (in: {}, out: {})",
            ins.len(), outs.len());
        want!(self, len_of(map.min_key_len) == gl, "device map says {:?}, dispatcher {got:?}", map.min_key_len);
        self.facts.push(format!("min {gl}"));
        self.label(match min { 1 => "min=1", 2 => "min=2", 4 => "min=4", _ => "min=8" });
        let outs_no_err = &outs[..outs.len() - 1];
        if [1usize, 2, 4, 8].into_iter().find(|n| distinct(&ins, *n) && distinct(outs_no_err, *n)) != Some(min) {
            self.label("error key decides the length");
        }
        if [1usize, 2, 4, 8].into_iter().find(|n| distinct(&ins, *n)) != Some(min) {
            self.label("outgoing keys decide the length");
        }
        min
    }
}
fn len_of(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
fn varkey(k: &[u8; 8], len: usize) -> VarKey {
    let f = fold(k, len);
    // through the wire format, so that no key conversion of the crate is involved
    let mut b = vec![((len.trailing_zeros() as u8) << 6)];
    b.extend_from_slice(&f);
    b.push(0);
    VarHeader::take_from_slice(&b).expect("harness: header").0.key
}

// ------------------------------------------------------------------ dispatcher environment

#[derive(Clone, Default)]
pub struct NTx(pub Rc<RefCell<Vec<Vec<u8>>>>);
impl WireTx for NTx {
    type Error = WireTxErrorKind;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), Self::Error> {
        let mut b = [0u8; 32];
        let (used, _) = hdr.write_to_slice(&mut b).expect("header fits");
        let mut v = used.to_vec();
        v.extend_from_slice(&postcard::to_stdvec(msg).expect("serialises"));
        self.0.borrow_mut().push(v);
        Ok(())
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), Self::Error> {
        self.0.borrow_mut().push(buf.to_vec());
        Ok(())
    }
    async fn send_log_str(&self, _: VarKeyKind, _: &str) -> Result<(), Self::Error> {
        Ok(())
    }
    async fn send_log_fmt<'a>(&self, _: VarKeyKind, _: std::fmt::Arguments<'a>) -> Result<(), Self::Error> {
        Ok(())
    }
}
type Task = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Clone, Default)]
pub struct NSpawn(pub Rc<RefCell<Vec<Task>>>);
impl WireSpawn for NSpawn {
    type Error = ();
    type Info = NSpawn;
    fn info(&self) -> &NSpawn {
        self
    }
}
pub fn spawn_fn<F: Future<Output = ()> + 'static>(s: &NSpawn, f: F) -> Result<(), ()> {
    s.0.borrow_mut().push(Box::pin(f));
    Ok(())
}
type Log = Rc<RefCell<Vec<(&'static str, u32, String)>>>;
#[derive(Clone, Default)]
pub struct Ctx(pub Log);
impl Ctx {
    pub fn hit(&self, who: &'static str, h: &VarHeader, m: &dyn Debug) {
        let s = match h.seq_no {
            VarSeq::Seq1(s) => s as u32,
            VarSeq::Seq2(s) => s as u32,
            VarSeq::Seq4(s) => s,
        };
        self.0.borrow_mut().push((who, s, format!("{m:?}")));
    }
}
impl SpawnContext for Ctx {
    type SpawnCtxt = Ctx;
    fn spawn_ctxt(&mut self) -> Ctx {
        self.clone()
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    fn raw() -> RawWaker {
        fn noop(_: *const ()) {}
        fn clone(_: *const ()) -> RawWaker {
            raw()
        }
        static V: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
        RawWaker::new(std::ptr::null(), &V)
    }
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    for _ in 0..100_000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("dispatch never finished")
}

/// What handling a frame must do
pub enum Expect {
    Handler { who: &'static str, msg: String, reply: Option<([u8; 8], Vec<u8>)> },
    Reply([u8; 8], Vec<u8>),
    Error(standard_icd::WireError),
}
pub struct Router<D: Dispatch<Tx = NTx>> {
    pub d: D,
    pub tx: NTx,
    pub ctx: Ctx,
    pub spawn: NSpawn,
    pub min: usize,
    pub seq: u32,
}
impl<D: Dispatch<Tx = NTx>> Router<D> {
    pub fn route(&mut self, r: &mut Rep, what: &str, key: &[u8; 8], body: &[u8], exp: &dyn Fn() -> Expect) {
        let sender = Sender::new(self.tx.clone(), self.d.min_key_len());
        for len in [1usize, 2, 4, 8] {
            self.seq = self.seq.wrapping_mul(1664525).wrapping_add(1013904223);
            let seq = self.seq;
            let hdr = VarHeader { key: varkey(key, len), seq_no: VarSeq::Seq4(seq) };
            self.ctx.0.borrow_mut().clear();
            self.tx.0.borrow_mut().clear();
            let _ = block_on(self.d.handle(&sender, &hdr, body));
            let tasks: Vec<Task> = self.spawn.0.borrow_mut().drain(..).collect();
            for t in tasks {
                block_on(t);
            }
            let log = self.ctx.0.borrow().clone();
            let out = self.tx.0.borrow().clone();
            let e = if len < self.min { Expect::Error(standard_icd::WireError::KeyTooSmall) } else { exp() };
            let (wlog, wout): (Vec<_>, Vec<([u8; 8], Vec<u8>)>) = match e {
                Expect::Handler { who, msg, reply } => (vec![(who, seq, msg)], reply.into_iter().collect()),
                Expect::Reply(k, b) => (vec![], vec![(k, b)]),
                Expect::Error(e) => (vec![], vec![(crate::key::<standard_icd::WireError>("error"), postcard::to_stdvec(&e).unwrap())]),
            };
            want!(r, log == wlog, "{what} at {len} bytes: handlers run {log:?}, expected {wlog:?}");
            let got: Vec<_> = out.iter().map(|f| decode(f)).collect();
            let want: Vec<_> = wout.iter().map(|(k, b)| Some((fold(k, self.min), (4usize, seq), b.clone()))).collect();
            want!(r, got == want, "{what} at {len} bytes: sent {got:?}, expected {want:?}");
        }
    }

    /// Ask for the schemas at every key length. What is sent has the same wire format in both
    /// build configurations, and a host can decode it.
    pub fn schemas(&mut self, r: &mut Rep, map: &DeviceMap) {
        let e = Rep::std_eps()[1].clone();
        let topic = Rep::std_tps(TopicDirection::ToClient)[0].key;
        let sender = Sender::new(self.tx.clone(), self.d.min_key_len());
        let text = |t: u8, p: &str| [&[t][..], &ser(&p)].concat();
        let mut want: Vec<Vec<u8>> = vec![];
        want.extend(map.types.iter().map(|t| [vec![0], ser(t)].concat()));
        want.extend(map.endpoints.iter().map(|(p, a, b)| [text(1, p), a.to_bytes().to_vec(), b.to_bytes().to_vec()].concat()));
        for (d, l) in [(1u8, map.topics_out), (0, map.topics_in)] {
            want.extend(l.iter().map(|(p, k)| [text(2, p), k.to_bytes().to_vec(), vec![d]].concat()));
        }
        want.sort();
        let totals = [map.types.len(), map.endpoints.len(), map.topics_in.len(), map.topics_out.len(), 0].map(|n| n as u32);
        for len in [1usize, 2, 4, 8].into_iter().filter(|l| *l >= self.min) {
            self.seq = self.seq.wrapping_mul(1664525).wrapping_add(1013904223);
            self.tx.0.borrow_mut().clear();
            self.ctx.0.borrow_mut().clear();
            let hdr = VarHeader { key: varkey(&e.req, len), seq_no: VarSeq::Seq4(self.seq) };
            let _ = block_on(self.d.handle(&sender, &hdr, &[]));
            let mut got: Vec<Decoded> = self.tx.0.borrow().iter().filter_map(|f| decode(f)).collect();
            let Some(last) = got.pop() else {
                r.problem(format!("schemas at {len} bytes: nothing sent"));
                continue;
            };
            want!(r, last == (fold(&e.resp, self.min), (4, self.seq), ser(&totals)), "schemas at {len} bytes: summary {last:?}, expected {totals:?}");
            for (i, g) in got.iter().enumerate() {
                want!(r, g.0 == fold(&topic, self.min) && g.1 == (2, i as u32), "schemas at {len} bytes: message {i} has key {:?} and number {:?}", g.0, g.1);
                #[cfg(feature = "std")]
                {
                    let back = postcard::from_bytes::<standard_icd::OwnedSchemaData>(&g.2).map(|d| ser(&d));
                    want!(r, back.as_ref() == Ok(&g.2), "schemas at {len} bytes: message {i} decodes to {back:?}");
                }
            }
            let mut bodies: Vec<Vec<u8>> = got.into_iter().map(|g| g.2).collect();
            bodies.sort();
            want!(r, bodies == want, "schemas at {len} bytes: sent {bodies:?}, expected {want:?}");
            want!(r, self.ctx.0.borrow().is_empty(), "schemas at {len} bytes: a handler ran");
        }
        r.label("schemas sent");
    }
}
pub fn ser<T: Serialize>(t: &T) -> Vec<u8> {
    postcard::to_stdvec(t).expect("harness: sample serialises")
}
pub fn dbg<T: Debug>(t: &T) -> String {
    format!("{t:?}")
}

/// Run one module's checks and print its result
pub fn module(name: &str, f: fn(&mut Rep)) {
    let mut r = Rep { module: name.to_string(), problems: vec![], facts: vec![], labels: BTreeSet::new() };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r)));
    if let Err(p) = res {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        r.problem(format!("panic: {m}"));
    }
    println!("@module {name}");
    for l in &r.labels {
        println!("@label {l}");
    }
    for f in &r.facts {
        println!("@fact {f}");
    }
    for p in &r.problems {
        println!("@problem {}", p.replace('\n', " "));
    }
    println!("@end {name}");
}
